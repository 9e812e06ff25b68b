"""Discharging obligations: polynomial identities, z3 (in process), then a portfolio of external solvers."""
import os, time, math, subprocess, tempfile, os, signal
from fractions import Fraction
import z3
import poly as PL


def num(v):
    """model value -> text for the native replay"""
    if z3.is_true(v):
        return "1"
    if z3.is_false(v):
        return "0"
    if z3.is_bv_value(v):
        return str(v.as_long())
    if z3.is_int_value(v):
        return str(v.as_long())
    if z3.is_rational_value(v):
        return repr(float(Fraction(v.numerator_as_long(), v.denominator_as_long())))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return repr(float(Fraction(a.numerator_as_long(), a.denominator_as_long())))
    if z3.is_fp_value(v) or isinstance(v, z3.FPNumRef):
        if v.isNaN():
            return "nan"
        if v.isInf():
            return "-inf" if v.isNegative() else "inf"
        if v.isZero():
            return "-0.0" if v.isNegative() else "0.0"
        b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
        import struct
        if v.sort() == z3.Float64():
            return repr(struct.unpack("<d", struct.pack("<Q", b))[0])
        return repr(struct.unpack("<f", struct.pack("<I", b))[0])
    return None


def inputs_of(m, nd):
    out = []
    for name, t in nd:
        if isinstance(t, z3.ExprRef):
            try:
                v = num(m.eval(t, model_completion=True))
            except z3.Z3Exception:
                v = None
        elif isinstance(t, bool):
            v = str(int(t))
        else:
            v = repr(float(t)) if isinstance(t, (float, Fraction)) else str(t)
        if v is not None:
            out.append((name, v))
    return out


def signed_fix(name, v):
    return v


class Prover:
    def __init__(self, eng, ms=20000, ext_s=60):
        self.eng, self.ms, self.ext_s = eng, ms, ext_s
        self.cache = {}

    # ------------------------------------------------------------------ polynomial identities
    def trig(self):
        """names of the sines and cosines"""
        return frozenset(str(x) for k, v in self.eng.mathmemo.items() if k[0] == "ang" for x in v[:2])

    def poly(self, goal, pc=()):
        """goal a == b over the reals: identity modulo the square rules of the atoms"""
        if not (z3.is_eq(goal) and z3.is_real(goal.arg(0))):
            return False
        try:
            c = PL.Conv()
            rules = {}
            prs = getattr(self.eng, "poly_rules", {})
            for atom, ex in prs.items():
                n, d = c.conv(ex)
                if d == PL.ONE:
                    rules[atom.get_id()] = n
            c2 = PL.Conv(rules)
            c2.atoms = c.atoms
            n, d = c2.conv(goal.arg(0) - goal.arg(1))
            n = PL.reduce_(n, rules)
            if not n:
                return True
            # one hypothesis away: an equation of the path that mentions the atoms of the goal
            gv = self.vars(goal)
            for h in pc if self.eng.opt.get("trig_eq") else ():
                if not (z3.is_eq(h) and z3.is_real(h.arg(0))) or not self.vars(h) & gv & self.trig():
                    continue
                for sg in (h.arg(0) - h.arg(1), h.arg(1) - h.arg(0)):
                    n, d = c2.conv((goal.arg(0) - goal.arg(1)) - sg)
                    if not PL.reduce_(n, rules):
                        return True
            return False
        except (PL.TooBig, RecursionError):
            return False

    def ineq(self, ob):
        """goal a < b, a <= b or a != b that is, up to a positive factor, a hypothesis (as rational functions)"""
        def norm(g):
            """-> (polynomial p, relation) meaning p rel 0; rel in > >= !="""
            if z3.is_not(g):
                h = g.arg(0)
                if z3.is_eq(h) and z3.is_real(h.arg(0)):
                    return h.arg(0) - h.arg(1), "!="
                if z3.is_lt(h):
                    return h.arg(0) - h.arg(1), ">="
                if z3.is_le(h):
                    return h.arg(0) - h.arg(1), ">"
                if z3.is_gt(h):
                    return h.arg(1) - h.arg(0), ">="
                if z3.is_ge(h):
                    return h.arg(1) - h.arg(0), ">"
                return None
            if z3.is_distinct(g) and g.num_args() == 2:
                return g.arg(0) - g.arg(1), "!="
            if not (z3.is_app(g) and g.num_args() == 2 and z3.is_real(g.arg(0))):
                return None
            if z3.is_lt(g):
                return g.arg(1) - g.arg(0), ">"
            if z3.is_le(g):
                return g.arg(1) - g.arg(0), ">="
            if z3.is_gt(g):
                return g.arg(0) - g.arg(1), ">"
            if z3.is_ge(g):
                return g.arg(0) - g.arg(1), ">="
            return None

        def key(x):
            n, d = c2.conv(x)
            n, d = PL.reduce_(n, rules), PL.reduce_(d, rules)
            if not n:
                return None
            k = n[min(n)]
            kd = d[min(d)]
            sg = 1 if (k > 0) == (kd > 0) else -1
            return (PL.lex_key({m: c / k for m, c in n.items()}), PL.lex_key({m: c / kd for m, c in d.items()})), sg
        g = norm(ob.goal)
        if g is None:
            return False
        try:
            c = PL.Conv()
            rules = {}
            for atom, ex in getattr(self.eng, "poly_rules", {}).items():
                n, d = c.conv(ex)
                if d == PL.ONE:
                    rules[atom.get_id()] = n
            c2 = PL.Conv(rules)
            c2.atoms = c.atoms
            kg = key(g[0])
            if kg is None:
                return g[1] == ">="
        except (PL.TooBig, RecursionError):
            return False
        gv = self.vars(ob.goal)
        for h in ob.pc:
            x = norm(h)
            if x is None or not self.vars(h) & gv:
                continue
            try:
                kh = key(x[0])
            except (PL.TooBig, RecursionError):
                continue
            if kh is None or kh[0] != kg[0]:
                continue
            if g[1] == "!=" and x[1] in (">", "!="):
                return True
            if kh[1] == kg[1] and (x[1] == ">" or x[1] == ">=" and g[1] == ">="):
                return True
        return False

    def conjuncts(self, g):
        if z3.is_and(g):
            r = []
            for c in g.children():
                r += self.conjuncts(c)
            return r
        return [g]

    def prove(self, ob):
        t0 = time.time()
        ob.res, ob.solver = self._prove(ob)
        ob.time = time.time() - t0
        if os.environ.get("VC_SLOW") and ob.time > 2:
            print("SLOW %.1fs %s: %s %s" % (ob.time, ob.name, ob.res, ob.solver), flush=True)
        if os.environ.get("VC_GOAL") and ob.res != "valid":
            print("GOAL %s [%d hyps]\n%s" % (ob.name, len(ob.pc), ob.goal), flush=True)

    def _prove(self, ob):
        key = (tuple(c.get_id() for c in ob.pc), ob.goal.get_id())
        if key in self.cache:
            r, s, m = self.cache[key]
            ob.model = m
            return r, s
        res = self._prove2(ob)
        self.cache[key] = res + (ob.model,)
        return res

    def _prove2(self, ob):
        g = z3.simplify(ob.goal)
        if z3.is_true(g):
            return "valid", "z3"
        if self.eng.mode == "math" and self.poly(ob.goal, ob.pc):
            return "valid", "polynomial identity"
        if self.eng.mode == "math" and self.ineq(ob):
            return "valid", "polynomial identity"
        last = None
        stages = [(int(self.ms * f)) for f in (0.15, 1.0)]
        sl = self.eng.slice(ob.pc, ob.goal)
        if len(sl) < len(ob.pc):
            r = self.z3(ob, stages[0], sl)
            if r:
                return r
        for ms in stages[:1]:
            r = self.z3(ob, ms)
            if r:
                return r
        if self.eng.mode == "math":
            r = self.relevant(ob, min(4000, self.ms))
            if r:
                return r
        if not self.eng.opt.get("no_ext"):
            r = self.external(ob)
            if r:
                return r
        r = self.z3(ob, stages[-1])
        if r:
            return r
        return "unknown", "timeout"

    def z3(self, ob, ms, pc=None):
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*(ob.pc if pc is None else pc))
        s.add(z3.Not(ob.goal))
        r = s.check()
        if r == z3.unsat:
            return "valid", "z3"
        if r == z3.sat and pc is None:
            ob.model = inputs_of(s.model(), ob.nd)
            return "sat", "z3"
        return None

    def vars(self, e, memo={}):
        i = e.get_id()
        if i in memo and memo[i][0].eq(e):
            return memo[i][1]
        r = frozenset()
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = frozenset([str(e)])
        else:
            for c in e.children():
                r |= self.vars(c)
        memo[i] = (e, r)
        return r

    def relevant(self, ob, ms):
        """try with fewer hypotheses (subset of a valid set: sound)"""
        gv = self.vars(ob.goal)
        base = [(c, self.vars(c)) for c in ob.pc]
        tried = None
        for rounds in range(3):
            sel = [c for c, v in base if v <= gv]
            if sel != tried and len(sel) < len(ob.pc):
                r = self.z3(ob, ms, sel)
                if r:
                    return r[0], "z3 (sliced)"
                for tac in ("qfnra-nlsat",):
                    try:
                        s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", tac).solver()
                        s.set("timeout", ms)
                        s.add(*[c for c in sel if not z3.is_quantifier(c)])
                        s.add(z3.Not(ob.goal))
                        if s.check() == z3.unsat:
                            return "valid", "z3 nlsat (sliced)"
                    except z3.Z3Exception:
                        pass
            tried = sel
            near = frozenset()
            for c, v in base:
                if v & gv and len(v - gv) <= 2:
                    near |= v
            if near <= gv:
                break
            gv |= near
        return None

    def external(self, ob):
        s = z3.Solver()
        s.add(*ob.pc)
        s.add(z3.Not(ob.goal))
        try:
            txt = s.to_smt2()
        except z3.Z3Exception:
            return None
        d = tempfile.mkdtemp(prefix="vc_")
        ps = []
        try:
            p = os.path.join(d, "q.smt2")
            open(p, "w").write(txt)
            p2 = os.path.join(d, "q2.smt2")
            logic = "(set-logic ALL)\n"
            open(p2, "w").write(logic + txt.replace("(set-info :status unknown)", ""))
            T = self.ext_s
            cmds = [("cvc5", ["cvc5", "--tlimit=%d" % (T * 1000), p2]),
                    ("z3-new", ["z3-new", "-T:%d" % T, p])]
            if self.eng.mode == "math":
                cmds.append(("cvc5 nl-cov", ["cvc5", "--nl-cov", "--tlimit=%d" % (T * 1000), p2]))
            for n, c in cmds:
                try:
                    ps.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                                   preexec_fn=os.setsid)))
                except FileNotFoundError:
                    pass
            end = time.time() + T + 5
            live = list(ps)
            while live and time.time() < end:
                for x in list(live):
                    if x[1].poll() is not None:
                        live.remove(x)
                        out = x[1].stdout.read()
                        first = out.strip().split("\n")[0] if out.strip() else ""
                        if first == "unsat":
                            return "valid", x[0]
                        if first == "sat":
                            # get a model from z3 with more time
                            r = self.z3(ob, self.ms)
                            return r or ("sat", x[0])
                time.sleep(0.05)
            return None
        finally:
            for n, p in ps:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                p.stdout.close()
                p.wait()
            import shutil
            shutil.rmtree(d, ignore_errors=True)
