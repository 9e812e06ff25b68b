"""Parser for the textual LLVM IR (clang/opt 18, opaque pointers) of the real code.

Only what clang emits for the functions under contract is supported; anything
else raises Unsupported when it is *executed* (not when it is parsed), so code
outside the verified call graph never matters.
"""
import re, struct


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name", "packed")

    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k, self.n, self.el, self.name, self.packed = k, n, el, name, packed

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.el or []))
        if self.k == "named":
            return "%" + self.name
        return self.k


VOID, PTR, F64, F32, LABEL, META = (Ty("void"), Ty("ptr"), Ty("double"), Ty("float"),
                                     Ty("label"), Ty("metadata"))
X80 = Ty("x86_fp80")
INT = {n: Ty("int", n) for n in (1, 8, 16, 32, 64, 128)}

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?(?![a-zA-Z_]))
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<punct>[\[\]{}()<>,=*|:;])
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("lex: %r" % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        t = m.group()
        if k == "punct" and t == ";":
            break
        if k in ("id", "comdat") and len(t) > 1 and t[1] == '"':
            t = t[0] + unesc(t[2:-1])
        out.append((k, t))
    return out


def unesc(s):
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


PARAM_ATTR = {
    "noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "returned", "noalias",
    "signext", "zeroext", "inreg", "immarg", "nofree", "noreturn", "nest", "swiftself", "writable",
    "dead_on_unwind", "noinline", "allocptr", "allocalign", "nofpclass",
}
PARAM_ATTR_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref",
                  "elementtype", "nofpclass", "range", "initializes"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.peek() != s:
            raise Unsupported("expected %s at %r" % (s, self.t[self.i:self.i + 5]))
        self.i += 1

    # ---- types
    def type(self):
        t = self._type()
        while True:
            if self.peek() == "(":          # function type: skip
                depth = 0
                while True:
                    x = self.next()
                    if x == "(":
                        depth += 1
                    elif x == ")":
                        depth -= 1
                        if depth == 0:
                            break
                t = Ty("fn", el=t)
            elif self.peek() == "addrspace":
                self.i += 4
            elif self.peek() == "*":
                self.i += 1
                t = PTR
            else:
                return t

    def _type(self):
        k, v = self.t[self.i]
        self.i += 1
        if v == "void":
            return VOID
        if v == "ptr":
            return PTR
        if v == "double":
            return F64
        if v == "float":
            return F32
        if v == "x86_fp80":
            return X80
        if v == "label":
            return LABEL
        if v == "metadata":
            return META
        if k == "word" and re.fullmatch(r"i\d+", v):
            n = int(v[1:])
            if n not in INT:
                INT[n] = Ty("int", n)
            return INT[n]
        if v == "[":
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect("]")
            return Ty("arr", n, el)
        if v == "<":
            if self.peek() == "{":
                self.next()
                els = self._types("}")
                self.expect(">")
                return Ty("struct", el=els, packed=True)
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect(">")
            return Ty("vec", n, el)
        if v == "{":
            return Ty("struct", el=self._types("}"))
        if k == "id" and v[0] == "%":
            return Ty("named", name=v[1:])
        if v == "opaque":
            return Ty("opaque")
        raise Unsupported("type %r" % v)

    def _types(self, end):
        els = []
        if self.accept(end):
            return els
        while True:
            els.append(self.type())
            if self.accept(end):
                return els
            self.expect(",")

    def attrs(self):
        a = {}
        while True:
            v = self.peek()
            if v in PARAM_ATTR_ARG and self.peek(1) == "(":
                self.i += 1
                if v in ("sret", "byval", "byref", "elementtype"):
                    self.expect("(")
                    a[v] = self.type()
                    self.expect(")")
                else:
                    self.skip_paren()
            elif v == "align":
                self.i += 2
            elif v in PARAM_ATTR:
                a[v] = True
                self.i += 1
            elif self.kind() == "str":
                self.i += 1
                if self.accept("="):
                    self.i += 1
            else:
                return a

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")

    # ---- values: returned as tuples
    #  ('c', int) ('f', float) ('null',) ('undef',) ('zero',) ('l', name) ('g', name)
    #  ('agg', [ (ty, val) ]) ('str', bytes) ('gep', ...) ('cast', op, fromty, val, toty) ('bin', ..)
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == "id":
            return ("l", v[1:]) if v[0] == "%" else ("g", v[1:])
        if k == "num":
            if ty.k in ("double", "float"):
                return ("f", float(v))
            return ("c", int(v))
        if k == "hex":
            if v[2] in "KMLHR":
                return ("x80", v)
            return ("f", struct.unpack(">d", struct.pack(">Q", int(v, 16)))[0])
        if v == "true":
            return ("c", 1)
        if v == "false":
            return ("c", 0)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero",)
        if v == "none":
            return ("zero",)
        if k == "str":
            return ("str", unesc(v[2:-1] if v[0] == "c" else v[1:-1]).encode("latin1"))
        if v in ("[", "{", "<"):
            if v == "<" and self.peek() == "{":
                self.next()
                r = self._agg("}")
                self.expect(">")
                return r
            return self._agg({"[": "]", "{": "}", "<": ">"}[v])
        if v == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw") or self.peek() == "inrange":
                if self.next() == "inrange":
                    self.skip_paren()
            self.expect("(")
            bty = self.type()
            self.expect(",")
            ops = []
            while True:
                while self.peek() == "inrange":
                    self.next()
                    if self.peek() == "(":
                        self.skip_paren()
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(")"):
                    break
                self.expect(",")
            return ("gep", bty, ops)
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            x = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", v, t, x, t2)
        if v in ("add", "sub", "mul", "xor", "and", "or", "icmp"):
            while self.kind() == "word" and self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t2 = self.type()
            b = self.value(t2)
            self.expect(")")
            return ("bin", v, t, a, b)
        if v == "dso_local_equivalent" or v == "no_cfi":
            return self.value(ty)
        raise Unsupported("value %r" % v)

    def _agg(self, end):
        r = []
        if self.accept(end):
            return ("agg", r)
        while True:
            t = self.type()
            r.append((t, self.value(t)))
            if self.accept(end):
                return ("agg", r)
            self.expect(",")


class Instr:
    __slots__ = ("op", "res", "ty", "a", "raw")

    def __init__(self, op, res, ty, a, raw):
        self.op, self.res, self.ty, self.a, self.raw = op, res, ty, a, raw


class Function:
    def __init__(self, name, ret, params, decl):
        self.name, self.ret, self.params, self.decl = name, ret, params, decl
        self.blocks = {}          # label -> [raw lines] then [Instr]
        self.entry = None
        self.parsed = set()
        self._loops = None
        self.retattrs = {}


def no_long_double(text):
    """real arithmetic does not distinguish long double from double"""
    def c(m):
        import struct
        se, man = int(m.group(1), 16), int(m.group(2), 16)
        v = 0.0 if man == 0 else man * 2.0 ** ((se & 0x7fff) - 16383 - 63)
        return "0x%016X" % struct.unpack("<Q", struct.pack("<d", -v if se & 0x8000 else v))[0]
    return re.sub(r"0xK([0-9A-Fa-f]{4})([0-9A-Fa-f]{16})", c, text).replace("x86_fp80", "double")


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}         # name -> (ty, initvalue or None, isconst)
        self.funcs = {}
        self.aliases = {}
        self._lay = {}
        self._parse(text)

    # -------------------------------------------------- top level
    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln or ln[0] in "; \t" or ln.startswith(("source_filename", "target", "attributes",
                                                              "!", "module asm")):
                continue
            if ln[0] == "$":
                continue
            if ln.startswith("%"):
                p = P(tokenize(ln), self)
                nm = p.next()[1:]
                p.expect("=")
                p.expect("type")
                self.types[nm] = p.type()
                continue
            if ln.startswith("@"):
                self._global(ln)
                continue
            if ln.startswith(("define", "declare")):
                f = self._fhead(ln)
                if ln.startswith("define"):
                    cur = None
                    while not lines[i].startswith("}"):
                        b = lines[i]
                        i += 1
                        if not b:
                            continue
                        if b[0] not in " \t":
                            m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', b)
                            if m:
                                lab = m.group(1)
                                if lab[0] == '"':
                                    lab = unesc(lab[1:-1])
                                cur = lab
                                f.blocks[cur] = []
                                if f.entry is None:
                                    f.entry = cur
                            continue
                        if cur is None:
                            cur = f.entry = str(len(f.params))
                            f.blocks[cur] = []
                        # switch / landingpad spread over several lines
                        s = b.strip()
                        if s.startswith("switch") and not s.endswith("]"):
                            while "]" not in lines[i]:
                                s += " " + lines[i].strip()
                                i += 1
                            s += " " + lines[i].strip()
                            i += 1
                        if "= landingpad" in s:
                            while lines[i].strip().startswith(("catch", "cleanup", "filter")):
                                s += " " + lines[i].strip()
                                i += 1
                        elif s.startswith("invoke") or "= invoke" in s:
                            if " unwind label" not in s:
                                s += " " + lines[i].strip()
                                i += 1
                        f.blocks[cur].append(s)
                    i += 1
                self.funcs[f.name] = f

    def _global(self, ln):
        p = P(tokenize(ln), self)
        nm = p.next()[1:]
        p.expect("=")
        const = False
        ext = False
        while True:
            v = p.peek()
            if v in ("global", "constant"):
                const = p.next() == "constant"
                break
            if v == "alias":
                p.next()
                p.type()
                p.expect(",")
                t = p.type()
                self.aliases[nm] = p.value(t)
                return
            if v in ("external", "extern_weak"):
                ext = True
            if v in ("ifunc",):
                return
            p.next()
            if p.peek() == "(":
                p.skip_paren()
        ty = p.type()
        init = None
        if not ext and p.i < len(p.t) and p.peek() != ",":
            try:
                init = p.value(ty)
            except Unsupported as e:
                init = ("unsup", str(e))
        self.globals[nm] = (ty, init, const)

    def _fhead(self, ln):
        p = P(tokenize(ln.split(" personality ")[0]), self)
        decl = p.next() == "declare"
        SK = {"dso_local", "linkonce_odr", "internal", "private", "weak_odr", "weak", "available_externally",
              "external", "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr", "fastcc",
              "extern_weak", "linkonce", "common", "dllimport", "ccc", "coldcc"}
        while p.peek() in SK:
            p.next()
        ra = p.attrs()
        ret = p.type_nofn() if hasattr(p, "type_nofn") else p._type()
        nm = p.next()[1:]
        p.expect("(")
        params = []
        while not p.accept(")"):
            if p.peek() == "...":
                p.next()
                continue
            t = p._type()
            a = p.attrs()
            pn = None
            if p.kind() == "id":
                pn = p.next()[1:]
            params.append((t, pn if pn is not None else str(len(params)), a))
            p.accept(",")
        f = Function(nm, ret, params, decl)
        f.retattrs = ra
        return f

    # -------------------------------------------------- layout
    def resolve(self, t):
        while t.k == "named":
            if t.name not in self.types:
                raise Unsupported("opaque type " + t.name)
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == "int":
            return min(16, max(1, (t.n + 7) // 8)) if t.n != 128 else 16
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k == "arr":
            return self.align(t.el)
        if t.k == "struct":
            return 1 if t.packed else max([self.align(e) for e in t.el] or [1])
        if t.k == "vec":
            return self.size(t)
        raise Unsupported("align %r" % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == "int":
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n) or (t.n + 7) // 8
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k == "arr":
            return t.n * self.size(t.el)
        if t.k == "vec":
            return t.n * self.size(t.el)
        if t.k == "struct":
            o = self.offsets(t)
            end = (o[-1] + self.size(t.el[-1])) if t.el else 0
            a = self.align(t)
            return (end + a - 1) // a * a
        raise Unsupported("size %r" % t)

    def offsets(self, t):
        t = self.resolve(t)
        r = self._lay.get(id(t))
        if r is None:
            r, off = [], 0
            for e in t.el:
                a = 1 if t.packed else self.align(e)
                off = (off + a - 1) // a * a
                r.append(off)
                off += self.size(e)
            self._lay[id(t)] = r
        return r

    # -------------------------------------------------- instructions (lazy)
    def block(self, f, lab):
        if lab not in f.parsed:
            f.blocks[lab] = [self._instr(s) for s in f.blocks[lab]]
            f.blocks[lab] = [x for x in f.blocks[lab] if x is not None]
            f.parsed.add(lab)
        return f.blocks[lab]

    FLAGS = {"nuw", "nsw", "exact", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast",
             "disjoint", "nneg", "inbounds", "volatile", "tail", "musttail", "notail", "samesign"}

    def _instr(self, s):
        p = P(tokenize(s), self)
        res = None
        if p.kind() == "id" and p.peek(1) == "=":
            res = p.next()[1:]
            p.next()
        try:
            return self._instr2(p, res, s)
        except (Unsupported, IndexError, ValueError) as e:
            return Instr("unsupported", res, None, str(e), s)

    def _operand(self, p):
        t = p.type()
        a = p.attrs()
        return t, p.value(t), a

    def _instr2(self, p, res, s):
        op = p.next()
        flags = set()
        while p.peek() in self.FLAGS:
            flags.add(p.next())
        if op in ("tail", "musttail", "notail"):
            op = p.next()
            while p.peek() in self.FLAGS:
                flags.add(p.next())
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr",
                  "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"):
            t = p.type()
            a = p.value(t)
            p.expect(",")
            return Instr(op, res, t, (a, p.value(t), flags), s)
        if op == "fneg":
            t = p.type()
            return Instr(op, res, t, (p.value(t),), s)
        if op in ("icmp", "fcmp"):
            pr = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            return Instr(op, res, t, (pr, a, p.value(t)), s)
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp",
                  "ptrtoint", "inttoptr", "bitcast"):
            t = p.type()
            a = p.value(t)
            p.expect("to")
            return Instr(op, res, p.type(), (t, a), s)
        if op == "load":
            if p.accept("atomic"):
                pass
            p.accept("volatile")
            t = p.type()
            p.expect(",")
            pt = p.type()
            return Instr(op, res, t, (p.value(pt),), s)
        if op == "store":
            p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            v = p.value(t)
            p.expect(",")
            pt = p.type()
            return Instr(op, None, t, (v, p.value(pt)), s)
        if op == "alloca":
            p.accept("inalloca")
            t = p.type()
            n = None
            if p.accept(","):
                if p.peek() != "align":
                    nt = p.type()
                    n = (nt, p.value(nt))
            return Instr(op, res, t, (n,), s)
        if op == "getelementptr":
            t = p.type()
            ops = []
            while p.accept(","):
                ty = p.type()
                ops.append((ty, p.value(ty)))
            return Instr(op, res, t, ops, s)
        if op == "phi":
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                inc.append((v, p.next()[1:]))
                p.expect("]")
                if not p.accept(","):
                    break
            return Instr(op, res, t, inc, s)
        if op == "select":
            ct, c, _ = self._operand(p)
            p.expect(",")
            t, a, _ = self._operand(p)
            p.expect(",")
            _, b, _ = self._operand(p)
            return Instr(op, res, t, (c, a, b, ct), s)
        if op == "br":
            if p.accept("label"):
                return Instr(op, None, None, (None, p.next()[1:], None), s)
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = p.next()[1:]
            p.expect(",")
            p.expect("label")
            return Instr(op, None, None, (c, a, p.next()[1:]), s)
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.expect("label")
            d = p.next()[1:]
            p.expect("[")
            cs = []
            while not p.accept("]"):
                ct = p.type()
                c = p.value(ct)
                p.expect(",")
                p.expect("label")
                cs.append((c[1], p.next()[1:]))
            return Instr(op, None, t, (v, d, cs), s)
        if op == "ret":
            t = p.type()
            return Instr(op, None, t, (None if t.k == "void" else p.value(t),), s)
        if op == "unreachable":
            return Instr(op, None, None, (), s)
        if op in ("call", "invoke"):
            p.attrs()
            while p.peek() in ("fastcc", "ccc", "coldcc"):
                p.next()
            ra = p.attrs()
            t = p._type()
            if p.peek() == "(":            # explicit function type (varargs)
                p.skip_paren()
            if p.peek() == "asm":
                return Instr("unsupported", res, t, "inline asm", s)
            callee = p.value(PTR)
            p.expect("(")
            args = []
            while not p.accept(")"):
                at = p.type()
                aa = p.attrs()
                if at.k == "metadata":
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        x = p.next()
                        d += (x in "([{") - (x in ")]}")
                    args.append((at, None, aa))
                else:
                    args.append((at, p.value(at), aa))
                p.accept(",")
            nrm = unw = None
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.expect("to")
                p.expect("label")
                nrm = p.next()[1:]
                p.expect("unwind")
                p.expect("label")
                unw = p.next()[1:]
            return Instr(op, res, t, (callee, args, nrm, unw), s)
        if op == "landingpad":
            t = p.type()
            cl = []
            cleanup = False
            while p.i < len(p.t):
                x = p.next()
                if x == "cleanup":
                    cleanup = True
                elif x == "catch":
                    ct = p.type()
                    cl.append(p.value(ct))
                elif x == "filter":
                    return Instr("unsupported", res, t, "filter", s)
            return Instr(op, res, t, (cl, cleanup), s)
        if op == "resume":
            t = p.type()
            return Instr(op, None, t, (p.value(t),), s)
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(","):
                if p.kind() == "meta":
                    break
                idx.append(int(p.next()))
            return Instr(op, res, t, (v, idx), s)
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            et = p.type()
            e = p.value(et)
            idx = []
            while p.accept(","):
                if p.kind() == "meta":
                    break
                idx.append(int(p.next()))
            return Instr(op, res, t, (v, et, e, idx), s)
        if op == "freeze":
            t = p.type()
            return Instr(op, res, t, (p.value(t),), s)
        if op == "fence":
            return None
        if op == "atomicrmw":
            p.accept("volatile")
            k = p.next()
            pt = p.type()
            ptr = p.value(pt)
            p.expect(",")
            t = p.type()
            return Instr(op, res, t, (k, ptr, p.value(t)), s)
        if op == "cmpxchg":
            return Instr("unsupported", res, None, "cmpxchg", s)
        return Instr("unsupported", res, None, op, s)

    # -------------------------------------------------- loops
    def succs(self, f, lab):
        ins = self.block(f, lab)[-1]
        if ins.op == "br":
            return [x for x in ins.a[1:] if x]
        if ins.op == "switch":
            return [ins.a[1]] + [c[1] for c in ins.a[2]]
        if ins.op == "invoke":
            return [ins.a[2], ins.a[3]]
        return []

    def loops(self, f):
        """header -> set of blocks of its natural loop(s)"""
        if f._loops is not None:
            return f._loops
        order, seen = [], set()
        stack = [(f.entry, iter(self.succs(f, f.entry)))]
        seen.add(f.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(f, s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(f, b):
                preds[s].append(b)
        idom = {f.entry: f.entry}

        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]:
                    a = idom[a]
                while idx[b] > idx[a]:
                    b = idom[b]
            return a
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [x for x in preds[b] if x in idom]
                n = ps[0]
                for x in ps[1:]:
                    n = inter(n, x)
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == f.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in self.succs(f, b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(preds[x])
        f._loops = loops
        return loops
