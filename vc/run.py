#!/opt/veriftools/pyvenv/bin/python3
"""check driver:  run.py PROPERTY [--tier quick|thorough] [--only FN] [--verbose]

1. compiles the contract harness together with the real sources of /repo's working tree
   (a) to LLVM IR for the VC generator, (b) natively for counterexample replay and search
2. generates and discharges the obligations of every harness function (contract)
3. reports: exit 0 / exit 1 + VIOLATION line; writes evidence/<id>.json
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, traceback, hashlib
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG, OPT, FILT = "/usr/bin/clang++-18", "/usr/bin/opt-18", "/usr/bin/llvm-cxxfilt-18"
INC = ["-I" + HERE + "/rt", "-I" + HERE + "/rt/inc", "-I" + REPO + "/lib", "-I" + REPO + "/lib/marc",
       "-I" + REPO, "-I" + REPO + "/opt/fmt-8.0.1/include"]
BASE = ["-std=c++17", "-fno-access-control", "-ffp-contract=off", "-w", "-DVERIF_HARNESS"]


def parse_opts(s):
    o = {}
    for kv in s.split():
        if "=" in kv:
            k, v = kv.split("=", 1)
            if re.fullmatch(r"-?\d+", v):
                v = int(v)
            elif v in ("true", "false"):
                v = v == "true"
            elif "," in v:
                v = v.split(",")
            o[k] = v
        else:
            o[kv] = True
    return o


def scan(prop):
    """harness files of a property: [(path, fileopts, [(fn, opts)])]"""
    r = []
    hd = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hd)):
        if not f.endswith(".cpp"):
            continue
        p = os.path.join(hd, f)
        txt = open(p).read()
        m = re.search(r"^//@ property (.*)$", txt, re.M)
        if not m or prop not in m.group(1).split():
            continue
        fo = {}
        for x in re.findall(r"^//@ file (.*)$", txt, re.M):
            fo.update(parse_opts(x))
        fns = [(a, dict(fo, **parse_opts(b))) for a, b in re.findall(r"^//@ fn (\w+)(.*)$", txt, re.M)]
        notes = re.findall(r"^//@ assume (.*)$", txt, re.M)
        r.append((p, fo, fns, notes))
    return r


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_ir(a):
    path, work, fo = a
    b = os.path.join(work, os.path.basename(path)[:-4])
    inc = INC + ["-I" + REPO + "/src"] + (["-I" + work])
    r = sh([CLANG] + BASE + ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-S", "-emit-llvm",
                             "-DVERIF_SYMBOLIC"] + inc + [path, "-o", b + ".ll"])
    if r.returncode:
        return None, r.stderr
    passes = fo.get("passes", "function(sroa,simplifycfg,loop-simplify)")
    if isinstance(passes, list):
        passes = ",".join(passes)
    # std::min and std::max hand out references: inlined, they become selections of values
    txt = open(b + ".ll").read()
    txt = re.sub(r"^(define [^\n]*@_ZSt3(?:min|max)I.*\))( #\d+[^)\n]*\{)$", r"\1 alwaysinline\2", txt, flags=re.M)
    open(b + ".ll", "w").write(txt)
    r = sh([OPT, "-S", "-passes=always-inline," + passes, b + ".ll", "-o", b + ".2.ll"])
    if r.returncode:
        return None, r.stderr
    return b + ".2.ll", ""


def build_native(a):
    path, work, fo = a
    b = os.path.join(work, os.path.basename(path)[:-4])
    san = fo.get("san", "address,integer-divide-by-zero,bounds,null" + (",float-cast-overflow" if fo.get("convcheck") else ""))
    if isinstance(san, list):
        san = ",".join(san)
    r = sh([CLANG] + BASE + ["-O1", "-fsanitize=" + san, "-fno-sanitize-recover=all"] + INC + ["-I" + REPO + "/src", "-I" + work] +
           [path, HERE + "/rt/native.cpp", "-rdynamic", "-o", b + ".exe", "-ldl"] + (["-lcfitsio"] if fo.get("cfitsio") else []))
    if r.returncode:
        return None, r.stderr
    return b + ".exe", ""


def prove_fn(a):
    ll, fn, opts, tier = a
    t0 = time.time()
    import irparse, engine, solve
    out = dict(fn=fn, mode=opts.get("mode", "bits"), status="ok", obligations=[], msg="", covers=[], functions=[],
               contracts=[], loops=[], stats={}, time=0)
    try:
        text = open(ll).read()
        if opts.get("mode") == "math":
            text = irparse.no_long_double(text)
        mod = irparse.Module(text)
        names = list(mod.funcs)
        r = subprocess.run([FILT], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        dem = dict(zip(names, r.stdout.split("\n")))
        o = dict(opts)
        if isinstance(o.get("fp_uf"), str):
            o["fp_uf"] = [o["fp_uf"]]
        if o.get("fp_uf") is True:
            o["fp_uf"] = ["fadd", "fsub", "fmul", "fdiv"]
        if isinstance(o.get("hints"), str):
            import hints
            o["hints"] = getattr(hints, o["hints"])
        eng = engine.Engine(mod, opts.get("mode", "bits"), o, dem)
        eng.deadline = time.time() + opts.get("budget", 300) * (3 if tier == "thorough" else 1)
        st = engine.State(eng)
        if o.get("pi") and opts.get("mode") == "math":
            import realmath
            realmath.pi_axioms(eng, st)
        outs = eng.call(st, fn, [])
        for x in outs:
            if x.kind == "throw":
                eng.oblige(x.st, False, "no unexpected exception (%s)" % x.val[0], "exception", fn)
        pr = solve.Prover(eng, ms=opts.get("ms", 20000), ext_s=opts.get("ext_s", 40) * (3 if tier == "thorough" else 1))
        nrets = sum(1 for x in outs if x.kind == "ret")
        seen = set()
        for ob in eng.obligs:
            if ob.res is None:
                if time.time() > t0 + opts.get("budget", 300) * 2:
                    ob.res, ob.solver = "unknown", "budget"
                else:
                    pr.prove(ob)
            out["obligations"].append((ob.name, ob.kind, ob.res, ob.solver, ob.model if ob.res == "sat" else None,
                                       round(ob.time, 3)))
        for nm, pc in sorted(eng.covers, key=lambda x: x[0]):
            import z3
            if any(c[0] == nm and c[1] == "sat" for c in out["covers"]):
                continue
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*pc)
            out["covers"].append((nm, str(s.check())))
        out["nrets"] = nrets
        if any(x[2] != "valid" for x in out["obligations"]):
            out["status"] = "fail"
        out["functions"] = sorted(eng.functions)
        out["contracts"] = sorted(eng.lib.used)
        out["loops"] = eng.loop_report
        out["stats"] = dict(eng.stats)
    except (irparse.Unsupported, engine.PathLimit) as e:
        out["status"] = "unsupported" if isinstance(e, irparse.Unsupported) else "limit"
        out["msg"] = str(e) + ("\n" + traceback.format_exc() if os.environ.get("VC_TB") else "")
    except Exception as e:
        out["status"] = "unsupported"
        out["msg"] = "internal: %r\n%s" % (e, traceback.format_exc())
    out["time"] = round(time.time() - t0, 2)
    return out


def native(exe, args, timeout):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return None, "", ""
    return r.returncode, r.stdout, r.stderr


def search_one(a):
    exe, fn, secs, seed = a
    rc, out, err = native(exe, [fn, "--search", str(secs), str(seed)], secs * 2 + 40)
    return fn, rc, out, err


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    verbose = "--verbose" in sys.argv
    noprove = "--noprove" in sys.argv
    nosearch = "--nosearch" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    files = scan(prop)
    work = tempfile.mkdtemp(prefix="vc_%s_" % prop)
    replays = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replays, exist_ok=True)
    try:
        rc = check(prop, tier, seed, files, work, replays, only, verbose, noprove, nosearch, t0)
    finally:
        if os.environ.get("VC_KEEP"):
            print("work:", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, files, work, replays, only, verbose, noprove, nosearch, t0):
    pre = os.path.join(HERE, "prepare.py")
    nw = min(8, os.cpu_count() or 4)
    jobs, notes = [], []
    viol = []          # (fn, obligation, found?, text)
    undone = []
    results, searches = [], []
    with mp.get_context("fork").Pool(nw, maxtasksperchild=1) as pool:
        prep = {}
        for p, fo, fns, nts in files:
            notes += nts
            if fo.get("prepare"):
                import prepare
                getattr(prepare, fo["prepare"])(REPO, work)
        irs = {p: pool.apply_async(build_ir, ((p, work, fo),)) for p, fo, fns, _ in files} if not noprove else {}
        nat = {p: pool.apply_async(build_native, ((p, work, fo),)) for p, fo, fns, _ in files}
        pend = []
        broken = []
        ll_of = {}
        for p, fo, fns, _ in files:
            ll = None
            if not noprove:
                ll, err = irs[p].get()
                if ll is None and fo.get("optional"):
                    undone += [(fn, "the private functions it is about are not there") for fn, _ in fns]
                elif ll is None:
                    broken.append((p, "cannot compile the contract harness against the real code:\n" + err))
            ll_of[p] = ll
            for fn, o in fns:
                if only and fn != only:
                    continue
                if ll and o.get("mode") != "bounded":
                    pend.append((p, fn, o, pool.apply_async(prove_fn, ((ll, fn, o, tier),))))
        exes = {}
        for p, fo, fns, _ in files:
            exe, err = nat[p].get()
            exes[p] = exe
            if exe is None and not fo.get("optional"):
                broken.append((p, "cannot compile the harness natively:\n" + err))
        # native execution of the same contracts (validates the assumptions of the proofs)
        srch = []
        ssec = 20 if tier == "thorough" else 3
        for p, fo, fns, _ in files:
            for fn, o in fns:
                if exes.get(p) and not nosearch and not (only and fn != only) and not o.get("nonative"):
                    s = o.get("search", ssec)
                    if o.get("mode") == "bounded":
                        s = max(s, 20)
                    srch.append((p, fn, pool.apply_async(search_one, ((exes[p], fn, s, seed),))))
        for p, fn, o, r in pend:
            results.append((p, fn, o, r.get()))
        for p, fn, r in srch:
            searches.append((p, fn, r.get()))

        def report_native(p, fn, out, why):
            key = hashlib.sha1((fn + out).encode()).hexdigest()[:8]
            rp = os.path.join(replays, "%s-%s-%s.txt" % (prop, fn, key))
            lines = [l for l in out.split("\n") if l.startswith(("INPUT", "FAIL"))]
            with open(rp, "w") as f:
                f.write("# property %s, contract %s (%s)\n# %s\n# replay: %s\n" % (
                    prop, fn, os.path.relpath(p, VERIF), why,
                    "cd /verif && vc/replay.sh %s %s %s" % (os.path.relpath(p, VERIF), fn, rp)))
                f.write("\n".join(lines) + "\n")
            return rp

        found = {}
        nruns = naccepted = 0
        for p, fn, (_, rc, out, err) in searches:
            m = re.search(r"OK runs=(\d+) accepted=(\d+)", out or "")
            if m:
                nruns += int(m.group(1))
                naccepted += int(m.group(2))
            if rc is not None and rc != 0 and "FAIL" in out:
                ob = re.search(r"FAIL harness=\S+ obligation=(.*)", out).group(1)
                found[fn] = (report_native(p, fn, out, "found by executing the contract natively"), ob)
        if noprove:
            for fn in found:
                print("native", fn, found[fn])
            for p, fn, (_, rc, out, err) in searches:
                print(fn, rc, out.strip()[-300:], (err or "").strip()[-600:] if rc else "")
            return 1 if found else 0
        for p, fn, o, r in results:
            if verbose or os.environ.get("VC_V"):
                bad = [x for x in r["obligations"] if x[2] != "valid"]
                print("== %s: %s  %d obligations, %d not discharged, %.1fs %s" % (
                    fn, r["status"], len(r["obligations"]), len(bad), r["time"], r["msg"]))
                for x in bad[:(200 if verbose else 6)]:
                    print("   ", x[0], "|", x[1], "|", x[2], x[3], str(x[4])[:300] if x[4] else "", x[5])
                print("    covers", r["covers"], "functions", len(r["functions"]), r["stats"])
                if verbose:
                    for w, inv, vs in r["loops"]:
                        print("    loop", w, "vars", vs, "\n        inv", "; ".join(inv)[:6000])
            if fn in found:
                viol.append((fn, found[fn][1], True, found[fn][0]))
                continue
            bad = [x for x in r["obligations"] if x[2] != "valid"]
            novac = [c for c in set(c[0] for c in r["covers"]) if not any(x[0] == c and x[1] != "unsat" for x in r["covers"])]
            vacuous = r["status"] == "ok" and (not any(x[1] == "ensures" for x in r["obligations"]) or r.get("nrets") == 0)
            want = set(str(o.get("covers", "")).split("+")) - {""} if o.get("covers") else set()
            missing = want - set(c[0] for c in r["covers"])
            if r["status"] == "ok" and not novac and not vacuous and not missing:
                continue
            # replay the verifier's counterexamples against the real code, then search
            hit = None
            exe = exes.get(p)
            tried = 0
            if exe:
                for x in bad:
                    if not x[4] or tried > 12:
                        continue
                    tried += 1
                    inp = os.path.join(work, "in_%s_%d.txt" % (fn, tried))
                    with open(inp, "w") as f:
                        for n, v in x[4]:
                            f.write("INPUT %s %s\n" % (n, v))
                    rc, out, err = native(exe, [fn, "--replay", inp], 40)
                    if rc is not None and rc != 0 and "FAIL" in out:
                        ob = re.search(r"FAIL harness=\S+ obligation=(.*)", out).group(1)
                        hit = (report_native(p, fn, out, "verifier counterexample for obligation: " + x[0]), ob)
                        break
                if not hit:
                    ss = [pool.apply_async(search_one, ((exe, fn, 30 if tier == "quick" else 120, seed * 100 + k),))
                          for k in range(nw)]
                    for s in ss:
                        _, rc, out, err = s.get()
                        if rc is not None and rc != 0 and "FAIL" in out and not hit:
                            ob = re.search(r"FAIL harness=\S+ obligation=(.*)", out).group(1)
                            hit = (report_native(p, fn, out, "contract-driven search after obligations failed: " +
                                                 "; ".join(sorted(set(b[0] for b in bad)))[:500]), ob)
            if hit:
                viol.append((fn, hit[1], True, hit[0]))
                continue
            if ll_of.get(p) and bad and time.time() - t0 < 330:
                # once more with time: a busy machine must not decide
                o2 = dict(o, slow=4, budget=240, ms=int(o.get("ms", 20000)) * 2)
                r2 = pool.apply_async(prove_fn, ((ll_of[p], fn, o2, tier),)).get()
                if r2["status"] == "ok" and not novac and not missing:
                    r.update(r2)
                    continue
            if r["status"] in ("unsupported", "limit") and not bad:
                undone.append((fn, r["msg"].split("\n")[0]))
                continue
            rp = os.path.join(replays, "%s-%s-obligation.txt" % (prop, fn))
            with open(rp, "w") as f:
                f.write("# property %s, contract %s (%s): obligations the verifier does not discharge\n" % (
                    prop, fn, os.path.relpath(p, VERIF)))
                for x in bad:
                    f.write("obligation: %s\nkind: %s\nresult: %s (%s)\nmodel: %s\n\n" % (x[0], x[1], x[2], x[3], x[4]))
                for c in novac:
                    f.write("obligation: contract is not vacuous: '%s' is reachable\nresult: unreachable\n" % c)
                for c in missing:
                    f.write("obligation: contract is not vacuous: '%s' is reachable\nresult: never reached\n" % c)
                if vacuous:
                    f.write("obligation: contract is not vacuous\nresult: no path reaches a postcondition\n")
            viol.append((fn, "; ".join(sorted(set(b[0] for b in bad)))[:300] or "vacuity", False, rp))
        for fn in found:
            if not any(v[0] == fn for v in viol):
                viol.append((fn, found[fn][1], True, found[fn][0]))
        for p, msg in broken:
            rp = os.path.join(replays, "%s-%s-build.txt" % (prop, os.path.basename(p)))
            open(rp, "w").write("# the contract harness no longer compiles against the code\n" + msg)
            viol.append((os.path.basename(p), "harness compiles against the code", False, rp))
    # ---------------------------------------------------------------- known findings
    known = load_known(prop)
    kf, real = [], []
    for v in viol:
        k = next((k for k in known if k["fn"] == v[0] and k["obligation"] in v[1]), None)
        (kf if k else real).append((v, k))
    for v, k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    obs = [x for _, _, _, r in results for x in r["obligations"]]
    backs = {}
    for x in obs:
        if x[2] == "valid":
            backs[x[3]] = backs.get(x[3], 0) + 1
    funcs = sorted(set(f for _, _, _, r in results for f in r["functions"] if f.startswith("MaRC::") or "MaRC" in f))
    contracts = sorted(set(c for _, _, _, r in results for c in r["contracts"]))
    inv = sum(len(l[1]) for _, _, _, r in results for l in r["loops"])
    modes = sorted(set(r["mode"] for _, _, _, r in results))
    ev = dict(property=prop, tier=tier, seed=seed, level="proof",
              coverage=dict(
                  obligations=len(obs), discharged=sum(1 for x in obs if x[2] == "valid"),
                  checker_cmd="vc/run.py %s (own VC generator over clang-18 LLVM IR of /repo; z3 %s, cvc5, z3-new)" % (prop, z3ver()),
                  trusted_base=["clang 18 front end and opt sroa/simplifycfg/loop-simplify", "VC generator /verif/vc",
                                "z3 / cvc5"] + ["library contract: " + c for c in contracts],
                  contracts=[fn for _, fn, _, _ in results],
                  functions_under_contract=funcs, discharged_by=backs,
                  obligation_names=sorted(set("%s: %s" % (r["fn"], x[0]) for _, _, _, r in results for x in r["obligations"]
                                              if x[1] == "ensures")),
                  loops=[(l[0], len(l[1])) for _, _, _, r in results for l in r["loops"]],
                  loop_invariants=inv,
                  solver_s=round(sum(r["stats"].get("solver_s", 0) for _, _, _, r in results) + sum(x[5] for x in obs), 1),
                  paths=sum(r["stats"].get("paths", 0) for _, _, _, r in results),
                  undischarged_functions=[list(u) for u in undone],
                  bounded_stand_ins=[fn for p, fo, fns, _ in files for fn, o in fns if o.get("mode") == "bounded"] + [u[0] for u in undone],
                  native_contract_runs=nruns, native_contract_runs_accepted=naccepted),
              assumptions=notes + (["doubles are treated as mathematical reals and rounding is not modelled in the "
                                    "contracts checked in mode math: " +
                                    ", ".join(fn for _, fn, o, r in results if r["mode"] == "math")] if "math" in modes else []) +
              ["destructors run during stack unwinding have no effect the contracts depend on",
               "operator new succeeds"],
              wall_s=round(time.time() - t0, 1), violations=len(real))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d contracts, %d obligations, %d discharged, %d loop invariants, %d native contract runs, %.1fs" % (
        prop, len(results), len(obs), ev["coverage"]["discharged"], inv, nruns, time.time() - t0))
    for u in undone:
        print("  not within reach of the verifier in this tree (bounded search only): %s: %s" % u)
    for v, _ in real:
        print("  contract %s, obligation: %s" % (v[0], v[1]))
    # one VIOLATION line, with a concrete failing input when there is one
    if real:
        real.sort(key=lambda x: not x[0][2])
        v = real[0][0]
        print("VIOLATION property=%s replay=%s%s" % (prop, v[3], "" if v[2] else " no-failing-input-found"))
        return 1
    return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    r.append(d)
    return r


def z3ver():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
