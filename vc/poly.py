"""Rational functions over atoms, used to normalise arguments and to prove polynomial identities.

An identity proof is a certificate-style argument: numerator of (lhs - rhs) is reduced modulo
rewriting rules x^2 -> q coming from asserted equations (sin^2 -> 1 - cos^2, sqrt(u)^2 -> u); if it
reduces to 0 the identity holds wherever the denominators are nonzero (separate obligations).
"""
from fractions import Fraction
import z3


class TooBig(Exception):
    pass


LIMIT = 6000


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    d = dict(m1)
    for v, e in m2:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    if len(a) * len(b) > LIMIT * 40:
        raise TooBig()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def const(c):
    return {(): Fraction(c)} if c else {}


ONE = {(): Fraction(1)}


class Conv:
    """z3 real/int expression -> (num, den) polynomials; atoms named by ast id"""

    def __init__(self, rules=None):
        self.atoms = {}
        self.memo = {}
        self.rules = rules or {}

    def atom(self, e):
        i = e.get_id()
        self.atoms[i] = e
        return ({((i, 1),): Fraction(1)}, ONE)

    def red(self, p):
        return reduce_(p, self.rules) if self.rules else p

    def conv(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][1]
        r = self._conv(e)
        self.memo[i] = (e, r)
        return r

    def _conv(self, e):
        if z3.is_rational_value(e):
            return (const(Fraction(e.numerator_as_long(), e.denominator_as_long())), ONE)
        if z3.is_int_value(e):
            return (const(e.as_long()), ONE)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            return self._sum([(1, self.conv(c)) for c in ch])
        if k == z3.Z3_OP_SUB:
            return self._sum([(1, self.conv(ch[0]))] + [(-1, self.conv(c)) for c in ch[1:]])
        if k == z3.Z3_OP_UMINUS:
            n, d = self.conv(ch[0])
            return ({m: -c for m, c in n.items()}, d)
        if k == z3.Z3_OP_MUL:
            n, d = ONE, ONE
            for c in ch:
                a, b = self.conv(c)
                n, d = self.red(pmul(n, a)), self.red(pmul(d, b))
            return (n, d)
        if k == z3.Z3_OP_DIV:
            a, b = self.conv(ch[0])
            c, d = self.conv(ch[1])
            if len(c) == 1 and () in c:
                return ({m: x / c[()] for m, x in pmul(a, d).items()}, b)
            return (self.red(pmul(a, d)), self.red(pmul(b, c)))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) or k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
            n = int(str(ch[1]))
            if 0 <= n <= 6:
                r = (ONE, ONE)
                a = self.conv(ch[0])
                for _ in range(n):
                    r = (pmul(r[0], a[0]), pmul(r[1], a[1]))
                return r
        if k == z3.Z3_OP_TO_REAL:
            x = ch[0]
            kk = x.decl().kind()
            if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or z3.is_int_value(x):
                return self.conv(x)
            if z3.is_const(x):
                return self.atom(x)          # identify an integer with its real value
        return self.atom(e)

    def _sum(self, xs):
        num, den = {}, ONE
        for s, (n, d) in xs:
            if d == den:
                num = padd(num, n, s)
            elif d == ONE:
                num = padd(num, pmul(n, den), s)
            elif den == ONE:
                num = padd(pmul(num, d), n, s)
                den = d
            else:
                num = padd(pmul(num, d), pmul(n, den), s)
                den = pmul(den, d)
            num, den = self.red(num), self.red(den)
        return (num, den)


def reduce_(p, rules):
    """rules: atom id -> polynomial replacing atom^2"""
    if not rules:
        return p
    for _ in range(200):
        ch = False
        r = {}
        for m, c in p.items():
            hit = next(((v, e) for v, e in m if e >= 2 and v in rules), None)
            if hit is None:
                n = r.get(m, 0) + c
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
                continue
            ch = True
            v, e = hit
            rest = tuple((a, b) if a != v else (a, b - 2) for a, b in m)
            rest = tuple((a, b) for a, b in rest if b)
            for m2, c2 in rules[v].items():
                mm = mmul(rest, m2)
                n = r.get(mm, 0) + c * c2
                if n:
                    r[mm] = n
                else:
                    r.pop(mm, None)
        p = r
        if len(p) > LIMIT:
            raise TooBig()
        if not ch:
            return p
    return p


def lex_key(p):
    return tuple(sorted((m, c) for m, c in p.items()))
