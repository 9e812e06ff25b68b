"""Mathematical functions over the reals: atoms + axioms (the standard facts listed in the evidence)."""
from fractions import Fraction
import z3
from irparse import Unsupported
import poly as PL

H = z3.RealVal("1/2")


def pi_axioms(e, st):
    p = e.PI()
    st.assume(z3.And(p > z3.RealVal("3.14159265358979"), p < z3.RealVal("3.14159265358980")))


def key_of(e, x):
    if not hasattr(e, "conv"):
        e.conv = PL.Conv()
        e.keepreal = []
    e.keepreal.append(x)
    n, d = e.conv.conv(x)
    return (PL.lex_key(n), PL.lex_key(d))


def rebuild(e, p):
    r = None
    for m, c in sorted(p.items()):
        t = z3.RealVal(c)
        for a, k in m:
            x = e.conv.atoms[a]
            if z3.is_int(x):
                x = z3.ToReal(x)
            for _ in range(k):
                t = t * x
        r = t if r is None else r + t
    return r if r is not None else z3.RealVal(0)


def use(e, st, key):
    for a in e.axcache.get(key, ()):
        st.assume(a)


def angle(e, st, coef, mono):
    """(sin, cos) atoms of the angle coef*mono"""
    k = ("ang", coef, mono)
    if k not in e.mathmemo:
        val = rebuild(e, {mono: coef})
        i = len([x for x in e.mathmemo if x[0] == "ang"])
        s, c = z3.Real("sin_%d" % i), z3.Real("cos_%d" % i)
        ax = [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
        p = e.PI()
        ax += [z3.Implies(z3.And(val > -p / 2, val < p / 2), c > 0),
               z3.Implies(z3.And(val > 0, val < p), s > 0),
               z3.Implies(z3.And(val < 0, val > -p), s < 0),
               z3.Implies(z3.And(val >= -p / 2, val <= p / 2), c >= 0)]
        if mono == () or coef == 0:
            pass
        e.mathmemo[k] = (s, c, val)
        e.axcache[k] = ax
        e.poly_rules = getattr(e, "poly_rules", {})
        e.poly_rules[s] = 1 - c * c
    s, c, val = e.mathmemo[k]
    pi_axioms(e, st)
    use(e, st, k)
    return s, c


def sincos(e, st, x):
    x = e.dom.zf(x, 64)
    key_of(e, x)
    n, d = e.conv.conv(x)
    if d != PL.ONE:
        if len(d) == 1 and () in d:
            n = {m: c / d[()] for m, c in n.items()}
        else:
            # opaque angle
            return angle_opaque(e, st, x)
    pi_id = e.PI().get_id()
    if pi_id not in e.conv.atoms:
        pi_id = None
    S, C = z3.RealVal(0), z3.RealVal(1)
    n = dict(n)
    q = n.pop(((pi_id, 1),), Fraction(0)) if pi_id is not None else Fraction(0)
    terms = sorted(n.items())
    if len(terms) > 4:
        return angle_opaque(e, st, x)
    first = True
    for m, c in terms:
        if abs(c) in (1, 2) and m != ():
            s, co = angle(e, st, Fraction(1), m)
            if abs(c) == 2:
                s, co = 2 * s * co, co * co - s * s
            if c < 0:
                s = -s
        elif ("ang", abs(c), m) not in e.mathmemo and ("ang", abs(c) / 2, m) in e.mathmemo:
            s, co = angle(e, st, abs(c) / 2, m)
            s, co = 2 * s * co, co * co - s * s
            if c < 0:
                s = -s
        else:
            s, co = angle(e, st, abs(c), m)
            if c < 0:
                s = -s
        if first:
            S, C = s, co
            first = False
        else:
            S, C = S * co + C * s, C * co - S * s
    q2 = q % 2
    h = q2 * 2
    if h.denominator == 1:
        k = int(h) % 4
        for _ in range(k):
            S, C = C, -S
    else:
        k = int(h)
        rest = q - Fraction(k, 2) if q >= 0 else q
        rest = q2 - Fraction(k, 2)
        s, co = angle(e, st, rest, ((pi_id, 1),))
        if rest == Fraction(1, 4):
            st.assume(s == co)
            st.assume(s > 0)
        if first:
            S, C = s, co
        else:
            S, C = S * co + C * s, C * co - S * s
        for _ in range(k):
            S, C = C, -S
    if len(terms) + (h.denominator != 1) > 1 or (terms and q2):
        # signs of the sine and cosine of a compound angle
        p = e.PI()
        for g in (z3.Implies(z3.And(x > -p / 2, x < p / 2), C > 0), z3.Implies(z3.And(x > 0, x < p), S > 0),
                  z3.Implies(z3.And(x < 0, x > -p), S < 0)):
            st.assume(g)
    return S, C


def angle_opaque(e, st, x):
    k = ("opq",) + key_of(e, x)
    if k not in e.mathmemo:
        i = len(e.mathmemo)
        a = z3.Real("angle_%d" % i)
        e.mathmemo[k] = a
        e.axcache[k] = [a == x]
        e.conv.conv(a)
    a = e.mathmemo[k]
    use(e, st, k)
    return angle(e, st, Fraction(1), ((a.get_id(), 1),))


def same(e, a, b):
    """equal as rational functions modulo the squares of the atoms"""
    memo = e.__dict__.setdefault("samememo", {})
    k = (a.get_id(), b.get_id())
    if k not in memo:
        try:
            # kept from call to call: a rule is there before its atom appears in any expression
            if "sameconv" not in e.__dict__:
                c, rules = PL.Conv(), {}
                c2 = PL.Conv(rules)
                c2.rules = rules
                c2.atoms = c.atoms
                e.sameconv = (c, c2, rules, set())
            c, c2, rules, done = e.sameconv
            for at, ex in getattr(e, "poly_rules", {}).items():
                if at.get_id() in done:
                    continue
                done.add(at.get_id())
                n, d = c.conv(ex)
                if d == PL.ONE:
                    rules[at.get_id()] = n
            n, d = c2.conv(a - b)
            memo[k] = (not PL.reduce_(n, rules), a, b)
        except (PL.TooBig, RecursionError):
            memo[k] = (False, a, b)
    return memo[k][0]


def atom(e, st, name, args, mk):
    k = (name,) + tuple(key_of(e, a) for a in args)
    new = k not in e.mathmemo
    # an application on this path whose arguments are known to be the same
    for k2, val in list(e.mathmemo.items()):
        if k2[0] == name and k2 != k and isinstance(val, tuple) and len(val) == 2 and \
                e.axcache[k2] and e.axcache[k2][0].get_id() in st.pcids:
            for other in ([val[1], val[1][::-1]] if name == "hypot" and len(args) == 2 else [val[1]]):
                if all(same(e, a, b) for a, b in zip(args, other)):
                    use(e, st, k2)
                    return val[0]
                g = z3.And([z3.simplify(a - b) == 0 for a, b in zip(args, other)])
                if not e.hard(g) and e.entails(st, g, 700):
                    use(e, st, k2)
                    return val[0]
    if new:
        v = z3.Real("%s_%d" % (name, len(e.mathmemo)))
        e.mathmemo[k] = (v, args)
        e.conv.conv(v)
        e.axcache[k] = []
        e.axcache[k] = mk(v) or []
        if not e.axcache[k]:
            e.axcache[k] = [v == v + 0]
    v = e.mathmemo[k][0]
    use(e, st, k)
    if name not in ("sqrt", "hypot"):
        # congruence with the other applications on this path
        for k2, val in list(e.mathmemo.items()):
            if k2[0] == name and k2 != k and isinstance(val, tuple) and len(val) == 2 and \
                    e.axcache[k2][0].get_id() in st.pcids:
                ck = ("cong", k, k2)
                if ck not in e.axcache:
                    if ("cong", k2, k) in e.axcache:
                        ck = ("cong", k2, k)
                    else:
                        e.axcache[ck] = [z3.Implies(z3.And([a == b for a, b in zip(args, val[1])]), v == val[0])]
                use(e, st, ck)
    return v


def trig_of(e, st, v):
    """(sin, cos) of an angle atom v (z3 const)"""
    e.conv.conv(v)
    return angle(e, st, Fraction(1), ((v.get_id(), 1),))


def need(e, st, g, what):
    pol = e.opt.get("domain", "oblige")
    if pol == "oblige":
        e.oblige(st, g, what + " (%s)" % e.where, "domain", e.where)
    else:
        st.assume(g)


def known_angles(e, st):
    """angles whose sine and cosine occur on this path"""
    return [(v[2], v[0], v[1]) for k, v in list(e.mathmemo.items()) if k[0] == "ang" and
            e.axcache[k][0].get_id() in st.pcids]


def apply(e, st, name, a):
    import math
    if any(isinstance(x, float) for x in a):
        if any(isinstance(x, float) and math.isnan(x) for x in a):
            return float("nan")
        raise Unsupported("math function of infinity")
    zf = e.dom.zf
    if name in ("fmin", "fmax"):
        x, y = a
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            return min(x, y) if name == "fmin" else max(x, y)
        x, y = zf(x, 64), zf(y, 64)
        return z3.If(x < y, x, y) if name == "fmin" else z3.If(x > y, x, y)
    if name in ("sin", "cos", "tan"):
        if isinstance(a[0], Fraction) and a[0] == 0:
            return Fraction(1 if name == "cos" else 0)
        x = zf(a[0], 64)
        if name == "tan":
            # tan(atan(y)) = y
            key_of(e, x)
            for k, v in e.mathmemo.items():
                if k[0] == "atan" and v[0].eq(x):
                    return v[1][0]
        s, c = sincos(e, st, x)
        if name == "sin":
            return s
        if name == "cos":
            return c
        e.need_nonzero(st, c)
        return s / c
    if name == "sqrt":
        if isinstance(a[0], Fraction):
            x = a[0]
            r = Fraction(math.isqrt(x.numerator), math.isqrt(x.denominator)) if x >= 0 else None
            if r is not None and r * r == x:
                return r
        x = zf(a[0], 64)
        need(e, st, x >= 0, "square root of a non-negative number")

        def mk(v):
            e.poly_rules = getattr(e, "poly_rules", {})
            e.poly_rules[v] = x
            return [v >= 0, z3.Implies(x >= 0, v * v == x)]
        return atom(e, st, "sqrt", [x], mk)
    if name == "hypot":
        x, y = zf(a[0], 64), zf(a[1], 64)

        def mk(v):
            e.poly_rules = getattr(e, "poly_rules", {})
            e.poly_rules[v] = x * x + y * y
            return [v >= 0, v * v == x * x + y * y]
        # symmetric and even: known by the sum of the squares
        return atom(e, st, "hypot", [x * x + y * y] if e.opt.get("trig_eq") else [x, y], mk)
    if name == "atan":
        x = zf(a[0], 64)
        p = e.PI()

        def mk(v):
            s, c = trig_of(e, st, v)
            ax = [v > -p / 2, v < p / 2, c > 0, s == x * c, z3.Implies(x > 0, v > 0), z3.Implies(x == 0, v == 0),
                  z3.Implies(x < 0, v < 0)]
            return ax + e.axcache[("ang", Fraction(1), ((v.get_id(), 1),))]
        r = atom(e, st, "atan", [x], mk)
        trig_of(e, st, r)
        # instances for angles that appeared later
        s, c = trig_of(e, st, r)
        for (val, s2, c2) in known_angles(e, st):
            if not s2.eq(s):
                st.assume(z3.Implies(z3.And(val > -p / 2, val < p / 2, x * c2 == s2), r == val))
        return r
    if name == "atan2":
        y, x = zf(a[0], 64), zf(a[1], 64)
        p = e.PI()
        r = apply(e, st, "hypot", [x, y])

        def mk(v):
            s, c = trig_of(e, st, v)
            return [v > -p, v <= p, x == r * c, y == r * s]
        t = atom(e, st, "atan2", [y, x], mk)
        s, c = trig_of(e, st, t)
        for (val, s2, c2) in known_angles(e, st):
            if not s2.eq(s):
                st.assume(z3.Implies(z3.And(val > -p, val <= p, r > 0, x == r * c2, y == r * s2), t == val))
        return t
    if name in ("asin", "acos"):
        x = zf(a[0], 64)
        p = e.PI()
        need(e, st, z3.And(x <= 1, x >= -1), name + " of a number in [-1,1]")

        def mk(v):
            s, c = trig_of(e, st, v)
            if name == "asin":
                return [v >= -p / 2, v <= p / 2, s == x, c >= 0]
            return [v >= 0, v <= p, c == x, s >= 0]
        r = atom(e, st, name, [x], mk)
        trig_of(e, st, r)
        return r
    if name == "pow":
        x, y = a
        if isinstance(y, Fraction) and y.denominator == 1 and 0 <= y <= 4:
            r = Fraction(1)
            for _ in range(int(y)):
                r = e.dom.fop("fmul", r, x, 64, st)
            return r
        if isinstance(y, Fraction) and y.denominator == 2 and 0 < y <= 4:
            r = apply(e, st, "sqrt", [x])
            for _ in range(int(y)):
                r = e.dom.fop("fmul", r, x, 64, st)
            return r
        x, y = zf(x, 64), zf(y, 64)
        return atom(e, st, "pow", [x, y], lambda v: [z3.Implies(x > 0, v > 0)])
    if name == "exp":
        return atom(e, st, "exp", [zf(a[0], 64)], lambda v: [v > 0])
    if name in ("log", "log10", "log2"):
        x = zf(a[0], 64)
        need(e, st, x > 0, name + " of a positive number")

        def mk(v):
            ax = [z3.Implies(x > 1, v > 0), z3.Implies(x == 1, v == 0), z3.Implies(z3.And(x < 1, x > 0), v < 0)]
            return ax
        return atom(e, st, name, [x], mk)
    if name == "fmod":
        x, y = zf(a[0], 64), zf(a[1], 64)
        e.need_nonzero(st, y)

        def mk(v):
            n = z3.Int("fmodq_%d" % len(e.mathmemo))
            ay = z3.If(y >= 0, y, -y)
            return [x == z3.ToReal(n) * y + v, v < ay, v > -ay, z3.Implies(x >= 0, v >= 0), z3.Implies(x <= 0, v <= 0),
                    z3.Implies(z3.And(x < ay, x > -ay), v == x)]
        return atom(e, st, "fmod", [x, y], mk)
    if name == "copysign":
        x, y = zf(a[0], 64), zf(a[1], 64)
        ax = z3.If(x >= 0, x, -x)
        return z3.If(y >= 0, ax, -ax)
    raise Unsupported("math function " + name)
