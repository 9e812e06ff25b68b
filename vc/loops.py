"""Loop cutting with inductive invariants (Houdini over candidate templates)."""
import itertools, math, os, re, time
from fractions import Fraction
import z3
from irparse import *
from dom import b_not, b_and, b_or, zb, sgn, is_c
import engine as E


class Var:
    """a loop-carried value: header phi, memory cell or watched array element"""

    def __init__(self, name, kind, width, entry, cur, back):
        self.name, self.kind, self.width = name, kind, width      # kind i b f
        self.entry, self.cur, self.back = entry, cur, back        # back: outcome -> value (or None)


def consts_of(e, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(str(x))
        st.extend(x.children())
    return acc


def back_regs(eng, f, o, h):
    r = dict(o.regs)
    eng.enter(f, o.st, r, h, o.pred)
    return r


def summarise(eng, f, st, regs, h, pred, body):
    eng.stats["loops"] += 1
    dom = eng.dom
    blkins = eng.mod.block(f, h)
    phis = [i for i in blkins if i.op == "phi"]
    regs = dict(regs)
    eng.enter(f, st, regs, h, pred)
    entry = {p.res: regs[p.res] for p in phis}
    where = eng.fnshort(f.name) + ":" + h
    save_on = eng.oblig_on

    known = set(st.mem) | {o.id for o in eng.gobj.values()}

    # ---- probing run from the entry state (no obligations): strides, first write set
    def probe(s0, r0):
        eng.oblig_on = False
        cl, sl = eng.cmp_log, eng.store_log
        if eng.cmp_log is None:
            eng.cmp_log = []
        if eng.store_log is None:
            eng.store_log = set()
        try:
            s0.wlog = []
            return eng.run(f, s0, r0, h, "__havoc__", (h, body)), list(eng.cmp_log), set(eng.store_log)
        finally:
            eng.oblig_on = save_on
            if cl is None:
                eng.cmp_log = None
            if sl is None:
                eng.store_log = None

    outs, _, _ = probe(st.clone(), dict(regs))
    backs = [o for o in outs if o.kind == "back"]
    strides = {}

    def note_stride(key, ent, val):
        if isinstance(ent, E.Ptr) and isinstance(val, E.Ptr) and ent.o is val.o and ent.o is not None:
            d = val.off.add(ent.off, -1)
            g = strides.get(key, 0)
            g = math.gcd(g, d.c)
            for _, c in d.t.values():
                g = math.gcd(g, c)
            strides[key] = g

    cells = {}      # (oid, off) -> (sz, tag)
    arrs = {}       # oid -> (es, tag)
    fills = set()

    def note_writes(os_):
        ch = False
        for o in os_:
            for w in o.st.wlog:
                if w[0] not in known:
                    continue
                if w[1] == "arr":
                    if w[0] not in arrs:
                        arrs[w[0]] = (w[2], w[3])
                        ch = True
                elif w[3] == "fill":
                    if w not in fills:
                        fills.add(w)
                        ch = True
                else:
                    k = (w[0], w[1])
                    if k not in cells:
                        cells[k] = (w[2], w[3])
                        ch = True
                    elif cells[k][0] != w[2] or (cells[k][1] != w[3] and cells[k][1] != "x"):
                        if cells[k] != (max(cells[k][0], w[2]), "x"):
                            cells[k] = (max(cells[k][0], w[2]), "x")
                            ch = True
        return ch

    note_writes(backs)
    for o in backs:
        br = back_regs(eng, f, o, h)
        for p in phis:
            note_stride(("phi", p.res), entry[p.res], br[p.res])
    # ---- havoc
    def build(fix={}):
        s = st.clone()
        s.wlog = []
        r = dict(regs)
        vs = []
        fresh_names = set()

        def mk(name, t, n, ent, getback):
            """fresh scalar"""
            if t == "i" and n == 1:
                v = dom.fresh_int(name, 1, s)
                vs.append(Var(name, "b", 1, ent, v, getback))
            elif t == "i":
                v = None
                if name in fix and not isinstance(ent, (E.Undef, E.PtrInt)):
                    # known (invariant) distance to another variable
                    base = [x for x in vs if x.name == fix[name]]
                    if fix[name] is None:
                        v = ent
                    elif len(base) == 1:
                        b = base[0]
                        d = z3.simplify(dom.zi(ent, n) - dom.zi(b.entry, n))
                        v = b.cur if z3.is_int_value(d) and d.as_long() == 0 else dom.zi(b.cur, n) + d
                if v is None:
                    v = dom.fresh_int(name, n, s)
                vs.append(Var(name, "i", n, ent, v, getback))
            else:
                v = dom.fresh_fp(name, n, s)
                vs.append(Var(name, "f", n, ent, v, getback))
            fresh_names.add(str(v))
            return v

        def mkptr(name, key, ent, getback):
            g = strides.get(key, 0)
            if ent.o is None:
                return ent
            if g == 0:
                # unchanged so far: keep it (checked at the back edge)
                vs.append(Var(name, "p", 0, ent, ent, getback))
                return ent
            if eng.mode == "bits":
                t = z3.BitVec(dom.name(name), 64)
            else:
                t = z3.Int(dom.name(name))
            fresh_names.add(str(t))

            def tb(o, br):
                v = getback(o, br)
                if not isinstance(v, E.Ptr) or v.o is not ent.o:
                    raise Unsupported("loop-carried pointer changes its object (%s)" % where)
                d = v.off.add(ent.off, -1).div(g)
                if d is None:
                    raise Unsupported("loop-carried pointer stride (%s)" % where)
                return d.term(dom)
            vs.append(Var(name, "t", 64, 0, t, tb))
            eng.keep.append(t)
            return E.Ptr(ent.o, ent.off.add(E.Off(0, {t.get_id(): (t, g)})))

        for p in phis:
            t = eng.mod.resolve(p.ty)
            ent = entry[p.res]
            gb = (lambda nm: (lambda o, br: br[nm]))(p.res)
            if isinstance(ent, E.Ptr):
                r[p.res] = mkptr(p.res, ("phi", p.res), ent, gb)
            elif isinstance(ent, (E.Fn,)) or t.k == "ptr":
                vs.append(Var(p.res, "p", 0, ent, ent, gb))
            elif isinstance(ent, E.PtrInt):
                raise Unsupported("loop-carried pointer integer")
            elif t.k == "int":
                r[p.res] = mk(p.res, "i", t.n, ent, gb)
            elif t.k in ("double", "float"):
                r[p.res] = mk(p.res, "f", 64 if t.k == "double" else 32, ent, gb)
            else:
                raise Unsupported("loop phi of type %r" % t)
        # arrays
        for oid, (es, tag) in arrs.items():
            o = eng.objs[oid]
            if eng.os(s, o).arr is None:
                eng.to_array(s, o, es, tag, Ty("int", es * 8) if tag == "i" else (F64 if es == 8 else F32))
                if eng.os(st, o).arr is None:
                    st.mem[oid] = s.mem[oid]
            es0, tg0, a0 = eng.os(s, o).arr
            na = z3.Array(dom.name(o.name), a0.domain(), a0.range())
            fresh_names.add(str(na))
            s.mem[oid] = E.OS({}, (), (es0, tg0, na), None, False)
        # cells
        for (oid, off), (sz, tag) in sorted(cells.items(), key=lambda x: x[0]):
            if oid in arrs:
                continue
            o = eng.objs[oid]
            c = eng.os(s, o)
            if c.arr is not None:
                raise Unsupported("cell/array mix")
            c2 = c.copy()
            old = c.cells.get(off)
            for a in [a for a, x in c.cells.items() if a < off + sz and a + x[0] > off]:
                del c2.cells[a]
            nm = (o.gname or o.name) + ("+%d" % off if off else "")
            if old is None and not tag == "x":
                for a, n, b in reversed(c.fills):
                    if a <= off and off + sz <= a + n and b == 0:
                        old = (sz, tag, eng.zero({"i": Ty("int", sz * 8), "f": F64 if sz == 8 else F32, "p": PTR}[tag]))
                        break
            if tag == "x" or old is None or old[0] != sz or old[1] != tag or isinstance(old[2], E.Undef):
                # no usable entry value: content unknown
                c2.fills = tuple(x for x in c2.fills if not (x[0] < off + sz and x[0] + x[1] > off))
                if len(c2.fills) != len(c.fills):
                    for (a, n, b) in c.fills:
                        if a < off + sz and a + n > off:
                            if a < off:
                                c2.fills += ((a, off - a, b),)
                            if a + n > off + sz:
                                c2.fills += ((off + sz, a + n - off - sz, b),)
                s.mem[oid] = c2
                continue
            ty = {"i": Ty("int", sz * 8), "f": F64 if sz == 8 else F32, "p": PTR}[tag]

            def gb(o_, br, o=o, off=off, ty=ty, sz=sz):
                return eng.raw_load(o_.st, o, E.Off(off), ty, sz)
            if tag == "p":
                if isinstance(old[2], E.Ptr):
                    v = mkptr(nm, ("cell", oid, off), old[2], gb)
                else:
                    v = old[2]
                    vs.append(Var(nm, "p", 0, v, v, gb))
            else:
                v = mk(nm, tag, sz * 8, old[2], gb)
            c2.cells[off] = (sz, tag, v)
            s.mem[oid] = c2
        for (oid, off, n, _) in fills:
            if oid in arrs:
                continue
            o = eng.objs[oid]
            c = eng.os(s, o).copy()
            for a in [a for a, x in c.cells.items() if a < off + n and a + x[0] > off]:
                del c.cells[a]
            nf = ()
            for (a, m, b) in c.fills:
                if a < off + n and a + m > off:
                    if a < off:
                        nf += ((a, off - a, b),)
                    if a + m > off + n:
                        nf += ((off + n, a + m - off - n, b),)
                else:
                    nf += ((a, m, b),)
            c.fills = nf
            s.mem[oid] = c
        # watched array elements
        wl = list(st.cnt.get("watch", ()))
        for gi, g in enumerate(st.cnt.get("watchix", ())):
            for oid, (es, tag) in arrs.items():
                wl.append(("%s[g%d]" % (eng.objs[oid].name, gi), E.Ptr(eng.objs[oid], eng.int_off(g).scale(es)),
                           Ty("int", es * 8) if tag == "i" else (F64 if es == 8 else F32)))
        for (wn, wp, wt) in wl:
            if wp.o.id in arrs:
                sz = eng.mod.size(wt)
                ent = eng.raw_load(st, wp.o, wp.off, wt, sz)
                cur = eng.raw_load(s, wp.o, wp.off, wt, sz)

                def gb(o_, br, wp=wp, wt=wt, sz=sz):
                    return eng.raw_load(o_.st, wp.o, wp.off, wt, sz)
                v = Var("watch:" + wn, "i" if wt.k == "int" else "f", sz * 8, ent, cur, gb)
                v.idx = wp.off.div(sz)
                vs.append(v)
        iv = list(s.cnt.get("ivars", ()))
        for v in vs:
            if v.kind in ("i", "t") and v.width == 64 and not v.name.startswith("watch"):
                iv.append(v.cur)
        s.cnt["ivars"] = tuple(iv)
        if eng.mode == "math":
            s.cnt["pairs"] = tuple((x, y) for x in iv[-8:] for y in iv[-8:] if x is not y)
        return s, r, vs, fresh_names

    cmps, stores = [], set()
    for rounds in range(12):
        s, r, vs, fresh = build()
        outs, cl, sl = probe(s.clone(), dict(r))
        cmps, stores = cl, sl
        bk = [o for o in outs if o.kind == "back"]
        ch = note_writes(bk)
        for o in bk:
            br = back_regs(eng, f, o, h)
            for p in phis:
                old = strides.get(("phi", p.res), 0)
                cur = r[p.res]
                if isinstance(cur, E.Ptr) and isinstance(br[p.res], E.Ptr) and cur.o is br[p.res].o and cur.o is not None:
                    d = br[p.res].off.add(cur.off, -1)
                    g = math.gcd(old, d.c)
                    for _, c in d.t.values():
                        g = math.gcd(g, c)
                    if g != old:
                        strides[("phi", p.res)] = g
                        ch = True
            for (oid, off), (sz, tag) in cells.items():
                if tag != "p" or oid in arrs:
                    continue
                oo = eng.objs[oid]
                a = eng.os(s, oo).cells.get(off)
                b = eng.os(o.st, oo).cells.get(off)
                if a and b and isinstance(a[2], E.Ptr) and isinstance(b[2], E.Ptr) and a[2].o is b[2].o and a[2].o is not None:
                    d = b[2].off.add(a[2].off, -1)
                    k = ("cell", oid, off)
                    old = strides.get(k, 0)
                    g = math.gcd(old, d.c)
                    for _, c in d.t.values():
                        g = math.gcd(g, c)
                    if g != old:
                        strides[k] = g
                        ch = True
        if not ch:
            break
    else:
        raise Unsupported("loop write set does not converge (%s)" % where)

    outer, outer_seen = eng.loop_warm, eng.loop_seen

    def fixed(active):
        """variables whose distance to an earlier variable (or to their entry value) is invariant"""
        fix = {}
        if eng.mode != "math":
            return fix
        have = {c[0] for c in active}
        iv = [v for v in vs0 if v.kind == "i" and not v.name.startswith("watch") and
              not isinstance(v.entry, (E.Undef, E.PtrInt))]
        names = [v.name for v in iv]
        for n, v in enumerate(iv):
            if names.count(v.name) > 1:
                continue
            if "%s==entry" % v.name in have:
                fix[v.name] = None
                continue
            for w in iv[:n]:
                if w.width == v.width and names.count(w.name) == 1 and "%s-%s constant" % (w.name, v.name) in have:
                    fix[v.name] = w.name
                    break
        return fix

    vs0 = vs

    def runbody(active, on, warm, seen):
        s, r, vs, fresh = build(fixed(active))
        env = [v.cur for v in vs]
        for c in active:
            s.assume(c[1](env))
        eng.oblig_on = on and save_on
        try:
            s.wlog = []
            eng.loop_warm, eng.loop_seen = warm, seen
            outs = eng.run(f, s, dict(r), h, "__havoc__", (h, body))
        finally:
            eng.oblig_on = save_on
            eng.loop_warm, eng.loop_seen = outer, outer_seen
        return s, r, vs, outs

    cands = candidates(eng, st, vs, fresh, cmps, stores)
    cands += predicates(eng, s, vs)
    env0 = [v.entry for v in vs]
    # inside the search for an enclosing loop's invariant, what an earlier round kept here is an upper bound
    prev = outer.get(where) if outer is not None else None
    if prev is not None:
        cands = [c for c in cands if wkey(c[0]) in prev]
    kept, goals = [], []
    for c in cands:
        try:
            goals.append((c, zb(c[1](env0))))
        except Unsupported:
            continue
    t0 = time.time()
    b0 = check_many(eng, st, goals)
    kept = [c for c, _ in goals if id(c) not in b0]
    t1 = time.time()
    nk = len(kept)
    inner = {}
    for rounds in range(40):
        this = {}
        s, r, vs, outs = runbody(kept, False, inner if rounds else None, this)
        inner = this
        bad = set()
        for o in outs:
            if o.kind != "back":
                continue
            br = back_regs(eng, f, o, h)
            env = [v.back(o, br) for v in vs]
            for v, b in zip(vs, env):
                if v.kind == "p":
                    same = (isinstance(b, E.Ptr) and isinstance(v.entry, E.Ptr) and b.o is v.entry.o
                            and b.off.same(v.entry.off)) or (isinstance(b, E.Fn) and isinstance(v.entry, E.Fn)
                                                             and b.name == v.entry.name) or isinstance(b, E.Undef)
                    if not same:
                        raise Unsupported("loop-carried pointer %s (%s)" % (v.name, where))
            todo = [c for c in kept if id(c) not in bad]
            goals = []
            for c in todo:
                try:
                    g = c[1](env)
                except Unsupported:
                    bad.add(id(c))
                    continue
                goals.append((c, zb(g)))
            bad |= check_many(eng, o.st, goals)
        if not bad:
            break
        kept = [c for c in kept if id(c) not in bad]
    eng.stats["inv_kept"] += len(kept)
    if outer_seen is not None:
        outer_seen.setdefault(where, set()).update(wkey(c[0]) for c in kept)
    if os.environ.get("VC_LOOPS") == "2":
        print("   kept: " + "; ".join(c[0] for c in kept), flush=True)
    if os.environ.get("VC_LOOPS"):
        print("loop", where, "cands", len(cands), "entry-ok", nk, "kept", len(kept), "rounds", rounds + 1,
              "entry %.1fs rest %.1fs" % (t1 - t0, time.time() - t1), flush=True)
    if save_on:
        # the kept candidates were proved true on entry and preserved: record the obligations
        for c in kept:
            for k in ("holds on entry", "is preserved"):
                ob = E.Oblig("loop invariant %s %s (%s)" % (c[0], k, where), "invariant", None, None, None, where)
                ob.res, ob.solver = "valid", "z3"
                eng.obligs.append(ob)
        eng.loop_report.append((where, [c[0] for c in kept], [v.name for v in vs]))
    s, r, vs, outs = runbody(kept, True, inner, None)
    res = []
    for o in outs:
        if o.kind == "back":
            continue
        # writes of the loop are writes of the enclosing code
        o.st.wlog = list(st.wlog) + o.st.wlog + \
            [(oid, "arr", es, tg) for oid, (es, tg) in arrs.items()] + \
            [(oid, off, sz, tg) for (oid, off), (sz, tg) in cells.items()] + list(fills)
        o.st.cnt["ivars"] = st.cnt.get("ivars", ())
        o.st.cnt["pairs"] = s.cnt.get("pairs", ())
        res.append(o)
    return res


def wkey(n):
    return re.sub(r"\d+", "#", n)


def check_many(eng, st, goals):
    """ids of candidates whose goal is not entailed"""
    bad = set()
    goals = [(c, g) for c, g in goals if not z3.is_true(z3.simplify(g))]
    if eng.mode == "math":
        hard = [x for x in goals if eng.hard(x[1])]
        if hard and len(hard) < len(goals):
            ids = {id(c) for c, _ in hard}
            bad |= check_many(eng, st, [x for x in goals if id(x[0]) not in ids])
            return bad | check_many(eng, st, hard)
    while goals:
        eng.stats["inv_checks"] += 1
        t = time.time()
        s = eng.solver(1500 if eng.mode == "math" else 4000)
        q = z3.Not(z3.And([g for _, g in goals]))
        eng.keep.append(q)
        s.add(*eng.hyps(st.pc, q))
        s.add(q)
        r = s.check()
        eng.stats["solver_calls"] += 1
        eng.stats["solver_s"] += time.time() - t
        if os.environ.get("VC_SLOW") and time.time() - t > 0.5:
            print("slow-inv %.1fs %s %s %d goals hard=%s" % (time.time() - t, eng.where, r, len(goals), eng.hard(q)), flush=True)
        if r == z3.unsat:
            return bad
        if r == z3.sat:
            m = s.model()
            drop = [c for c, g in goals if not z3.is_true(m.eval(g, model_completion=True))]
            if not drop:
                r = z3.unknown
            else:
                for c in drop:
                    bad.add(id(c))
                goals = [(c, g) for c, g in goals if id(c) not in bad]
                continue
        if r == z3.unknown:
            for c, g in goals:
                if not eng.entails(st, g, 600 if eng.mode == "math" else 2500):
                    bad.add(id(c))
            return bad
    return bad


def predicates(eng, s, vs):
    """candidates given by the harness: v_inv(fn), a predicate over the state of memory"""
    out = []
    dom = eng.dom
    for name, fn, *at in s.cnt.get("invs", ()):
        s1 = s.clone()
        n0 = len(s1.pc)
        save = eng.oblig_on
        eng.oblig_on = False
        try:
            outs = eng.call(s1, fn, [])
        finally:
            eng.oblig_on = save
        term = z3.Or(*[z3.And(*([zb(c) for c in o.st.pc[n0:]] + [zb(o.val if not isinstance(o.val, int) or isinstance(o.val, bool)
                                                                    else o.val != 0)]))
                       for o in outs if o.kind == "ret"])
        eng.keep.append(term)

        def pred(env, term=term):
            sub = []
            for v, x in zip(vs, env):
                if not isinstance(v.cur, z3.ExprRef) or isinstance(x, (E.Undef, E.Ptr, E.PtrInt, E.Fn)):
                    continue
                if v.kind == "b":
                    x = zb(x)
                elif v.kind == "f":
                    if eng.mode == "math" and isinstance(x, float):
                        raise Unsupported("non-finite")
                    x = dom.zf(x, v.width)
                else:
                    x = dom.zi(x, v.width)
                if x.sort() == v.cur.sort():
                    sub.append((v.cur, x))
            return z3.substitute(term, *sub) if sub else term
        if not at:
            out.append(("harness invariant: " + name, pred))
            continue
        w = dom.zi(at[0], 64)
        for i, v in enumerate(vs):
            if v.kind != "i" or v.width != 64:
                continue
            for op in ("ule", "ult", "uge", "ugt"):
                def guarded(env, i=i, op=op, pred=pred, w=w):
                    if isinstance(env[i], (E.Undef, E.Ptr, E.PtrInt, E.Fn)):
                        raise Unsupported("not an integer")
                    return z3.Implies(zb(dom.icmp(op, dom.zi(env[i], 64), w, 64)), pred(env))
                out.append(("harness invariant: %s when %s %s" % (name, v.name, op), guarded))
    return out


def candidates(eng, st, vs, fresh, cmps, stores):
    dom = eng.dom
    out = []

    def add(desc, fn):
        out.append((desc, fn))

    def indep(t):
        return isinstance(t, z3.ExprRef) and not (consts_of(t) & fresh)

    # limit terms: loop-invariant operands of comparisons, and the named integer inputs
    lims, seen = {}, set()

    def addlim(n, t, nm):
        if isinstance(t, bool):
            return
        k = (n, t if isinstance(t, int) else t.get_id())
        if k in seen:
            return
        seen.add(k)
        if not isinstance(t, int):
            eng.keep.append(t)
        lims.setdefault(n, []).append((nm, t))
    flims = []
    for n, a, b, *fw in cmps:
        for t in (a, b):
            if n == "f":
                if fw[0] != 64:
                    continue
                if (is_c(t) or indep(t)) and not isinstance(t, bool):
                    if not any((x is t) or (is_c(x) and is_c(t) and x == t) or
                               (not is_c(x) and not is_c(t) and x.eq(t)) for x in flims):
                        flims.append(t)
                continue
            if isinstance(t, int) and not isinstance(t, bool):
                addlim(n, t, str(sgn(t, n)))
            elif indep(t):
                addlim(n, t, str(t)[:40].replace("\n", " "))
    base_lims = {n: list(v) for n, v in lims.items()}
    for nm, t in st.nd:
        if isinstance(t, z3.ExprRef):
            if eng.mode == "math" and z3.is_int(t):
                addlim(64, t, nm)
            elif eng.mode == "bits" and z3.is_bv(t):
                addlim(t.size(), t, nm)
    for v in list(st.cnt.get("ivars", ())):
        addlim(64, v, str(v))

    ints = [i for i, v in enumerate(vs) if v.kind in ("i", "t") and not v.name.startswith("watch")]
    entry_undef = [i for i, v in enumerate(vs) if isinstance(v.entry, (E.Undef, E.PtrInt))]
    ints = [i for i in ints if i not in entry_undef]
    flts = [i for i, v in enumerate(vs) if v.kind == "f" and i not in entry_undef and not v.name.startswith("watch")]
    if eng.opt.get("noflt"):
        flts = []
    bools = [i for i, v in enumerate(vs) if v.kind == "b" and i not in entry_undef]
    watches = [i for i, v in enumerate(vs) if v.name.startswith("watch:")]

    def cmp(pr, a, b, n, kind="i"):
        if kind == "t" and eng.mode == "math":
            A, B = dom.zi(a, 64), dom.zi(b, 64)
            return {"eq": A == B, "ule": A <= B, "uge": A >= B, "ult": A < B}[pr]
        return dom.icmp(pr, a, b, n, None)

    for i in ints:
        v = vs[i]
        n, e0 = v.width, v.entry
        add("%s==entry" % v.name, lambda env, i=i, n=n, e0=e0: cmp("eq", env[i], e0, n, vs[i].kind))
        add("%s>=entry" % v.name, lambda env, i=i, n=n, e0=e0: cmp("uge", env[i], e0, n, vs[i].kind))
        add("%s<=entry" % v.name, lambda env, i=i, n=n, e0=e0: cmp("ule", env[i], e0, n, vs[i].kind))
        for nm, L in lims.get(n, [])[:14]:
            add("%s<=%s" % (v.name, nm), lambda env, i=i, n=n, L=L: cmp("ule", env[i], L, n, vs[i].kind))
            if (nm, L) in base_lims.get(n, []):
                add("%s<%s" % (v.name, nm), lambda env, i=i, n=n, L=L: cmp("ult", env[i], L, n, vs[i].kind))
                add("%s>=%s" % (v.name, nm), lambda env, i=i, n=n, L=L: cmp("uge", env[i], L, n, vs[i].kind))
        if v.kind == "i" and n == 8:
            add("%s<=1" % v.name, lambda env, i=i, n=n: cmp("ule", env[i], 1, n, vs[i].kind))
        if v.kind == "i" and n < 64:
            add("signed %s>=entry" % v.name, lambda env, i=i, n=n, e0=e0: dom.icmp("sge", env[i], e0, n, None))
    for i, j in itertools.combinations(ints, 2):
        a, b = vs[i], vs[j]
        if {a.width, b.width} == {32, 64}:
            x, y = (i, j) if a.width == 32 else (j, i)

            def xle(env, x=x, y=y):
                if eng.mode == "math":
                    return dom.zi(env[x], 32) <= dom.zi(env[y], 64)
                return z3.ULE(z3.ZeroExt(32, dom.zi(env[x], 32)), dom.zi(env[y], 64))
            add("%s<=%s" % (vs[x].name, vs[y].name), xle)
        if a.width != b.width:
            continue
        n = a.width

        def diff(env, i=i, j=j, n=n):
            a, b = vs[i], vs[j]
            z = lambda x: dom.zi(x, n)
            return z(env[i]) - z(a.entry) == z(env[j]) - z(b.entry)

        def summ(env, i=i, j=j, n=n):
            a, b = vs[i], vs[j]
            z = lambda x: dom.zi(x, n)
            return z(env[i]) + z(env[j]) == z(a.entry) + z(b.entry)
        add("%s-%s constant" % (a.name, b.name), diff)
        add("%s+%s constant" % (a.name, b.name), summ)
        add("%s<=%s" % (a.name, b.name), lambda env, i=i, j=j, n=n: cmp("ule", env[i], env[j], n, "i"))
        add("%s<=%s" % (b.name, a.name), lambda env, i=i, j=j, n=n: cmp("ule", env[j], env[i], n, "i"))
    # a counter y that wraps to 0 (or steps) when x reaches L
    if eng.mode == "math" and st.cnt.get("invs"):
        for i, j in itertools.permutations([i for i in ints if vs[i].width == 64][:6], 2):
            for nm, L in [x for x in base_lims.get(64, []) if not isinstance(x[1], int)][:4]:
                def wrap(env, i=i, j=j, L=L):
                    z = lambda x: dom.zi(x, 64)
                    return z3.If(z(env[i]) == L, z(env[j]) == 0, z(env[j]) - z(vs[j].entry) == z(env[i]) - z(vs[i].entry))

                def step(env, i=i, j=j, L=L):
                    z = lambda x: dom.zi(x, 64)
                    return z(env[j]) - z(vs[j].entry) == z3.If(z(env[i]) == L, 1, 0)
                add("%s==%s mod %s" % (vs[j].name, vs[i].name, nm), wrap)
                add("%s==entry+(%s==%s)" % (vs[j].name, vs[i].name, nm), step)
    # v - v0 == w * L (+ u)
    if eng.mode == "math" and eng.opt.get("products", True):
        prods = [(nm, L) for nm, L in lims.get(64, []) if not isinstance(L, int)][:6]
        idxs = [i for i in ints if vs[i].width == 64][:7]
        for i in idxs:
            for j in idxs:
                if i == j:
                    continue
                for nm, L in prods:
                    def mul(env, i=i, j=j, L=L):
                        z = lambda x: dom.zi(x, 64)
                        return z(env[i]) - z(vs[i].entry) == (z(env[j]) - z(vs[j].entry)) * L
                    add("%s==%s*%s" % (vs[i].name, vs[j].name, nm), mul)
        outer = [(str(v), v) for v in st.cnt.get("ivars", ())][-5:]
        for i in idxs:
            for j in idxs + [None]:
                if i == j:
                    continue
                for on, ov in outer:
                    for nm, L in prods:
                        if L.eq(ov):
                            continue

                        def mul2(env, i=i, j=j, L=L, ov=ov):
                            z = lambda x: dom.zi(x, 64)
                            return z(env[i]) == ov * L + (z(env[j]) if j is not None else 0)
                        add("%s==%s*%s+%s" % (vs[i].name, on, nm, vs[j].name if j is not None else 0), mul2)
    for i in flts:
        v = vs[i]
        w = v.width
        add("%s==entry" % v.name, lambda env, i=i, w=w, e0=v.entry: dom.feq_term(env[i], e0, w))
        add("%s>=entry" % v.name, lambda env, i=i, w=w, e0=v.entry: dom.fcmp("oge", env[i], e0, w))
        add("%s<=entry" % v.name, lambda env, i=i, w=w, e0=v.entry: dom.fcmp("ole", env[i], e0, w))
        add("%s not NaN" % v.name, lambda env, i=i, w=w: b_not(dom.isnan(env[i], w)))
        for L in (flims[:6] if w == 64 else []):
            add("%s<=%s" % (v.name, L), lambda env, i=i, w=w, L=L: dom.fcmp("ole", env[i], L, w))
            add("%s>=%s" % (v.name, L), lambda env, i=i, w=w, L=L: dom.fcmp("oge", env[i], L, w))
        for j in flts:
            if j > i and vs[j].width == w:
                add("%s==%s" % (v.name, vs[j].name), lambda env, i=i, j=j, w=w: dom.feq_term(env[i], env[j], w))
                if eng.mode == "math":
                    add("%s<=%s" % (v.name, vs[j].name), lambda env, i=i, j=j, w=w: dom.fcmp("ole", env[i], env[j], w))
                    add("%s>=%s" % (v.name, vs[j].name), lambda env, i=i, j=j, w=w: dom.fcmp("oge", env[i], env[j], w))
    for i in bools:
        add("%s==entry" % vs[i].name, lambda env, i=i, e0=vs[i].entry: zb(env[i]) == zb(e0))
        for j in bools:
            if j > i:
                add("%s==%s" % (vs[i].name, vs[j].name), lambda env, i=i, j=j: zb(env[i]) == zb(env[j]))
    # flags against counters: (x==0) <-> (y==0)
    small = [i for i in ints if isinstance(vs[i].entry, int)] + bools
    for i, j in itertools.combinations(small, 2):
        def zero(env, k):
            v = vs[k]
            if v.kind == "b":
                return b_not(env[k])
            return cmp("eq", env[k], 0, v.width, v.kind)
        add("(%s==0)<->(%s==0)" % (vs[i].name, vs[j].name),
            lambda env, i=i, j=j: zb(zero(env, i)) == zb(zero(env, j)))
    # conditional equalities: once the flag/counter is nonzero, two values agree
    for k in small:
        def nz(env, k=k):
            v = vs[k]
            return env[k] if v.kind == "b" else cmp("eq", env[k], 0, v.width, v.kind)
        for i, j in itertools.combinations(flts, 2):
            if vs[i].width == vs[j].width:
                def ce(env, i=i, j=j, k=k):
                    v = vs[k]
                    z = b_not(env[k]) if v.kind == "b" else cmp("eq", env[k], 0, v.width, v.kind)
                    return z3.Or(zb(z), dom.feq_term(env[i], env[j], vs[i].width))
                add("%s!=0 -> %s==%s" % (vs[k].name, vs[i].name, vs[j].name), ce)
                if eng.mode == "math" and vs[k].kind == "i" and vs[k].width >= 32:
                    def ce1(env, i=i, j=j, k=k):
                        z = cmp("eq", env[k], 1, vs[k].width, vs[k].kind)
                        return z3.Or(z3.Not(zb(z)), dom.feq_term(env[i], env[j], vs[i].width))
                    add("%s==1 -> %s==%s" % (vs[k].name, vs[i].name, vs[j].name), ce1)
        if eng.mode == "bits":
            for i, j in itertools.permutations(flts, 2):
                if vs[i].width == vs[j].width:
                    def cle(env, i=i, j=j, k=k):
                        v = vs[k]
                        z = b_not(env[k]) if v.kind == "b" else cmp("eq", env[k], 0, v.width, v.kind)
                        return z3.Or(zb(z), zb(dom.fcmp("ole", env[i], env[j], vs[i].width)))
                    add("%s!=0 -> %s<=%s" % (vs[k].name, vs[i].name, vs[j].name), cle)
            for i, j in itertools.permutations(ints, 2):
                if vs[i].width == vs[j].width and vs[i].kind == "i" and vs[j].kind == "i" and k not in (i, j):
                    for pr in (("sle",) if vs[i].width > 8 else ("ule",)):
                        def cle(env, i=i, j=j, k=k, pr=pr):
                            v = vs[k]
                            z = b_not(env[k]) if v.kind == "b" else cmp("eq", env[k], 0, v.width, v.kind)
                            return z3.Or(zb(z), zb(dom.icmp(pr, env[i], env[j], vs[i].width, None)))
                        add("%s!=0 -> %s<=%s" % (vs[k].name, vs[i].name, vs[j].name), cle)
        for i in flts:
            def ce0(env, i=i, k=k):
                v = vs[k]
                z = b_not(env[k]) if v.kind == "b" else cmp("eq", env[k], 0, v.width, v.kind)
                return z3.Or(b_not(zb(z)), dom.feq_term(env[i], vs[i].entry, vs[i].width))
            add("%s==0 -> %s==entry" % (vs[k].name, vs[i].name), ce0)
    for i in watches:
        v = vs[i]
        w = v.width

        def eqv(a, b, v=v, w=w):
            return dom.icmp("eq", a, b, w, None) if v.kind == "i" else dom.feq_term(a, b, w)
        add("%s==entry" % v.name, lambda env, i=i, e0=v.entry, eqv=eqv: eqv(env[i], e0))
        for c in list(stores)[:4]:
            if v.kind == "i" and isinstance(c, int):
                add("%s in {entry,%d}" % (v.name, c),
                    lambda env, i=i, e0=v.entry, c=c, eqv=eqv: z3.Or(zb(eqv(env[i], e0)), zb(eqv(env[i], c))))
        for j, x in enumerate(vs):
            if x.kind == v.kind and x.width == w and j != i and not isinstance(x.entry, E.Undef):
                add("%s==%s" % (v.name, x.name), lambda env, i=i, j=j, eqv=eqv: eqv(env[i], env[j]))
    hints = eng.opt.get("hints")
    if hints:
        for d, fn in hints(eng, st, vs, lims):
            add(d, fn)
    return out
