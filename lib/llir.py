"""Textual LLVM IR (LLVM 18, opaque pointers) as data.  Functions are parsed when first used."""
import re

TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<cstr>c"(?:[^"])*")
  | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#[0-9]+)
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<num>-?[0-9]+(?![-a-zA-Z$._0-9]))
  | (?P<word>[-a-zA-Z$._0-9]+)
  | (?P<dots>\.\.\.)
  | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i] == ";":
                break
            raise ValueError("lex: %r" % s[i:i + 60])
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group(0)))
        i = m.end()
    return out


def name(t):
    s = t[1:]
    if s.startswith('"'):
        s = re.sub(r"\\([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), s[1:-1])
    return s


# ---- types: ('i', n) ('p',) ('v',) ('a', n, t) ('s', [t], packed) ('V', n, t) ('n', name) ('f', kind)
PTR, VOID = ("p",), ("v",)


class Ts:
    """A cursor over tokens."""

    def __init__(self, toks, i=0):
        self.t, self.i = toks, i

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ("end", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x[1] != s:
            raise ValueError("expected %r, got %r near %r" % (s, x[1], " ".join(t[1] for t in self.t[max(0, self.i - 6):self.i + 6])))

    def type(self):
        k, s = self.next()
        if k == "word":
            if s[0] == "i" and s[1:].isdigit():
                t = ("i", int(s[1:]))
            elif s == "ptr":
                t = PTR
                if self.peek()[1] == "addrspace":
                    self.i += 4
            elif s == "void":
                t = VOID
            elif s in ("float", "double", "half", "x86_fp80", "fp128"):
                t = ("f", s)
            elif s in ("metadata", "label", "token", "opaque"):
                t = ("o", s)
            else:
                raise ValueError("type %r" % s)
        elif k == "local":
            t = ("n", name(s))
        elif s == "[":
            n = int(self.next()[1])
            self.expect("x")
            t = ("a", n, self.type())
            self.expect("]")
        elif s == "{":
            t = ("s", self.types("}"), False)
        elif s == "<":
            if self.eat("{"):
                t = ("s", self.types("}"), True)
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                t = ("V", n, self.type())
                self.expect(">")
        else:
            raise ValueError("type %r" % s)
        # Function type: only skipped over.
        if self.peek()[1] == "(" and self.fn_ok:
            d = 0
            while True:
                x = self.next()[1]
                d += (x == "(") - (x == ")")
                if d == 0:
                    break
            return ("fn", t)
        return t

    fn_ok = False

    def types(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            out.append(self.type())
            if self.eat(end):
                return out
            self.expect(",")


CASTS = ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "fptoui", "fptosi", "uitofp", "sitofp")
BINARY = ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor")
FLAGS = ("nuw", "nsw", "exact", "inbounds", "disjoint", "nneg", "volatile", "nusw", "samesign")
CONSTANT_WORDS = ("true", "false", "null", "undef", "poison", "zeroinitializer", "none") + CASTS + BINARY + ("getelementptr", "icmp", "select", "splat")


class Module:
    def __init__(self, text):
        self.types, self.globals, self.fdefs, self.decls = {}, {}, {}, set()
        self.parsed = {}
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%"):
                j = l.index(" = type ")
                nm = name(l[:j])
                self.types[nm] = l[j + 8:]
            elif l.startswith("@"):
                m = re.match(r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', l)
                self.globals[name(m.group(0))] = l[m.end():]
            elif l.startswith("declare"):
                m = re.search(r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', l)
                self.decls.add(name(m.group(0)))
            elif l.startswith("define"):
                m = re.search(r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                j = i
                while lines[j] != "}":
                    j += 1
                self.fdefs[name(m.group(0)[:-1])] = lines[i:j]
                i = j
            i += 1
        self.tcache = {}

    def named(self, nm):
        t = self.tcache.get(nm)
        if t is None:
            ts = Ts(lex(self.types[nm]))
            t = self.tcache[nm] = ts.type() if self.types[nm] != "opaque" else ("s", [], False)
        return t

    # ---- layout
    def align(self, t):
        k = t[0]
        if k == "i":
            n = t[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8
        if k == "p":
            return 8
        if k == "a":
            return self.align(t[2])
        if k == "V":
            return max(1, min(16, self.size(t)))
        if k == "n":
            return self.align(self.named(t[1]))
        if k == "s":
            return 1 if t[2] or not t[1] else max(self.align(x) for x in t[1])
        if k == "f":
            return {"float": 4, "double": 8}.get(t[1], 16)
        return 8

    def store_size(self, t):
        if t[0] == "i":
            return (t[1] + 7) // 8
        return self.size(t)

    def size(self, t):
        k = t[0]
        if k == "i":
            b, a = (t[1] + 7) // 8, self.align(t)
            return -(-b // a) * a
        if k == "p":
            return 8
        if k == "a":
            return t[1] * self.size(t[2])
        if k == "V":
            b = t[1] * (t[2][1] if t[2][0] == "i" else 8 * self.size(t[2]))
            b = (b + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return p
        if k == "n":
            return self.size(self.named(t[1]))
        if k == "s":
            return self.layout(t)[1]
        if k == "f":
            return {"float": 4, "double": 8}.get(t[1], 16)
        raise ValueError(t)

    def resolve(self, t):
        while t[0] == "n":
            t = self.named(t[1])
        return t

    _lay = {}

    def layout(self, t):
        t = self.resolve(t)
        key = id(t)
        r = self._lay.get(key)
        if r is not None and r[2] is t:
            return r
        off, offs, al = 0, [], 1
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            al = max(al, a)
            off = -(-off // a) * a
            offs.append(off)
            off += self.size(x)
        r = (offs, -(-off // al) * al, t)
        self._lay[key] = r
        return r

    # ---- operands: ('k', int) ('r', name) ('g', name) ('u',) ('z', type) ('agg', [..]) ('x', op, ...)
    def operand(self, ts, t):
        k, s = ts.next()
        if k == "local":
            return ("r", name(s))
        if k == "glob":
            return ("g", name(s))
        if k == "num":
            n = t[1] if t[0] == "i" else 64
            return ("k", int(s) & ((1 << n) - 1))
        if k == "cstr":
            raw = s[2:-1].encode("latin-1")
            b = re.sub(rb"\\([0-9a-fA-F]{2})", lambda m: bytes([int(m.group(1), 16)]), raw)
            return ("agg", [("k", x) for x in b])
        if k == "word":
            if s == "true":
                return ("k", 1)
            if s in ("false", "null"):
                return ("k", 0)
            if s in ("undef", "poison"):
                return ("u", t)
            if s == "zeroinitializer":
                return ("z", t)
            if s in CASTS:
                ts.expect("(")
                a = ts.type()
                v = self.operand(ts, a)
                ts.expect("to")
                b = ts.type()
                ts.expect(")")
                return ("x", "cast", s, a, v, b)
            if s == "getelementptr":
                while ts.peek()[1] in FLAGS:
                    ts.next()
                if ts.peek()[1] == "inrange":
                    raise ValueError("inrange")
                ts.expect("(")
                base = ts.type()
                ts.expect(",")
                args = []
                while True:
                    ts.eat("inrange")
                    a = ts.type()
                    args.append((a, self.operand(ts, a)))
                    if ts.eat(")"):
                        break
                    ts.expect(",")
                return ("x", "gep", base, args)
            if s in BINARY:
                while ts.peek()[1] in FLAGS:
                    ts.next()
                ts.expect("(")
                a = ts.type()
                x = self.operand(ts, a)
                ts.expect(",")
                b = ts.type()
                y = self.operand(ts, b)
                ts.expect(")")
                return ("x", "bin", s, a, x, y)
            if s == "icmp":
                pred = ts.next()[1]
                ts.expect("(")
                a = ts.type()
                x = self.operand(ts, a)
                ts.expect(",")
                b = ts.type()
                y = self.operand(ts, b)
                ts.expect(")")
                return ("x", "icmp", pred, a, x, y)
            if s.startswith("0x") or re.match(r"[0-9.]+e?", s):
                return ("k", 0)                     # floating point: not interpreted
            raise ValueError("operand %r" % s)
        if s in ("{", "[", "<"):
            end = {"{": "}", "[": "]", "<": ">"}[s]
            packed = s == "<" and ts.peek()[1] == "{"
            if packed:
                ts.next()
                end = "}"
            out = []
            if not ts.eat(end):
                while True:
                    a = ts.type()
                    out.append(self.operand(ts, a))
                    if ts.eat(end):
                        break
                    ts.expect(",")
            if packed:
                ts.expect(">")
            return ("agg", out)
        raise ValueError("operand %r" % s)

    def typed(self, ts):
        t = ts.type()
        return t, self.operand(ts, t)

    def attrs(self, ts):
        """Skip attributes."""
        while True:
            k, s = ts.peek()
            if k == "attr" or k == "str":
                ts.next()
                if ts.eat("="):
                    ts.next()
            elif k == "word" and s not in CONSTANT_WORDS and not (s[0] == "i" and s[1:].isdigit()) and s not in ("ptr", "void", "asm", "float", "double", "label", "metadata"):
                ts.next()
                if ts.peek()[1] == "(":
                    d = 0
                    while True:
                        x = ts.next()[1]
                        d += (x == "(") - (x == ")")
                        if d == 0:
                            break
                elif s == "align" and ts.peek()[0] == "num":
                    ts.next()
            else:
                return

    def args(self, ts):
        ts.expect("(")
        out = []
        if ts.eat(")"):
            return out
        while True:
            t = ts.type()
            if t == ("o", "metadata"):
                d = 0
                while not (d == 0 and ts.peek()[1] in (",", ")")):
                    x = ts.next()[1]
                    d += (x in "([{") - (x in ")]}")
                out.append((t, ("k", 0)))
            else:
                byval = None
                j = ts.i
                self.attrs(ts)
                if any(x[1] == "byval" for x in ts.t[j:ts.i]):
                    raise ValueError("byval")
                out.append((t, self.operand(ts, t)))
            if ts.eat(")"):
                return out
            ts.expect(",")

    # ---- globals
    def global_init(self, nm):
        """(type, operand or None, constant?)"""
        ts = Ts(lex(re.sub(r', !.*$', '', self.globals[nm])))
        ts.expect("=")
        const, ext = False, False
        while True:
            s = ts.peek()[1]
            if s in ("global", "constant"):
                const = s == "constant"
                ts.next()
                break
            if s in ("external", "extern_weak"):
                ext = True
            if s == "alias":
                ts.next()
                t = ts.type()
                ts.expect(",")
                a = ts.type()
                return "alias", self.operand(ts, a), True
            ts.next()
            if ts.peek()[1] == "(":
                while ts.next()[1] != ")":
                    pass
        t = ts.type()
        if ext:
            return t, None, const
        return t, self.operand(ts, t), const

    # ---- functions
    def function(self, nm):
        f = self.parsed.get(nm)
        if f is None:
            f = self.parsed[nm] = Function(self, nm, self.fdefs[nm])
        return f


class Function:
    def __init__(self, mod, nm, lines):
        self.name = nm
        ts = Ts(lex(lines[0]))
        while not (ts.peek()[0] == "glob" and ts.peek(1)[1] == "("):
            ts.next()
        ts.next()
        ts.expect("(")
        self.params, unnamed = [], 0
        if not ts.eat(")"):
            while True:
                if ts.peek()[0] == "dots":
                    ts.next()
                else:
                    t = ts.type()
                    mod.attrs(ts)
                    if ts.peek()[0] == "local":
                        n = name(ts.next()[1])
                    else:
                        n = str(unnamed)
                    if n.isdigit():
                        unnamed += 1
                    self.params.append((n, t))
                if ts.eat(")"):
                    break
                ts.expect(",")
        self.blocks, self.order = {}, []
        cur, body, pend = None, None, ""
        for l in lines[1:]:
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            if not l[0].isspace():
                m = re.match(r'(?:"((?:[^"\\]|\\.)*)"|([-a-zA-Z$._0-9]+)):', l)
                cur = m.group(1) if m.group(1) is not None else m.group(2)
                cur = name("%" + ('"%s"' % cur if m.group(1) is not None else cur))
                body = self.blocks[cur] = []
                self.order.append(cur)
                continue
            if body is None:
                cur = str(unnamed)
                body = self.blocks[cur] = []
                self.order.append(cur)
            s = l.strip()
            if pend:
                pend += " " + s
                if s.startswith("]") or pend.startswith("I"):
                    body.append(pend[1:])
                    pend = ""
                continue
            if re.match(r"switch .*\[$", s):
                pend = "S" + s
                continue
            if re.match(r"(%\S+ = |%\"[^\"]*\" = )?invoke ", s):
                pend = "I" + s
                continue
            if body and re.match(r"(cleanup|catch|filter)\b", s):
                body[-1] += " " + s
                continue
            body.append(s)
        self.entry = self.order[0]
        self.code = {}
        self.mod = mod

    def block(self, b):
        c = self.code.get(b)
        if c is None:
            c = self.code[b] = [self.parse(s) for s in self.blocks[b]]
        return c

    def parse(self, s):
        s = re.sub(r"(, !\w+ !\d+|, !\w+ !\w+\([^)]*\))+$", "", s)
        mod = self.mod
        ts = Ts(lex(s))
        dest = None
        if ts.peek()[0] == "local" and ts.peek(1)[1] == "=":
            dest = name(ts.next()[1])
            ts.next()
        op = ts.next()[1]
        while op in ("tail", "musttail", "notail"):
            op = ts.next()[1]
        flags = []
        if op not in ("call", "invoke"):
            while ts.peek()[0] == "word" and ts.peek()[1] in FLAGS:
                flags.append(ts.next()[1])
        if op in BINARY:
            t = ts.type()
            a = mod.operand(ts, t)
            ts.expect(",")
            return ("bin", dest, op, t, a, mod.operand(ts, t))
        if op in CASTS:
            t = ts.type()
            a = mod.operand(ts, t)
            ts.expect("to")
            return ("cast", dest, op, t, a, ts.type())
        if op == "icmp":
            pred = ts.next()[1]
            t = ts.type()
            a = mod.operand(ts, t)
            ts.expect(",")
            return ("icmp", dest, pred, t, a, mod.operand(ts, t))
        if op == "load":
            if ts.eat("atomic"):
                ts.eat("volatile")
            t = ts.type()
            ts.expect(",")
            return ("load", dest, t, mod.typed(ts)[1])
        if op == "store":
            if ts.eat("atomic"):
                ts.eat("volatile")
            t, v = mod.typed(ts)
            ts.expect(",")
            return ("store", None, t, v, mod.typed(ts)[1])
        if op == "getelementptr":
            t = ts.type()
            args = []
            while ts.eat(","):
                args.append(mod.typed(ts))
            return ("gep", dest, t, args)
        if op == "br":
            if ts.peek()[1] == "label":
                ts.next()
                return ("jmp", None, name(ts.next()[1]))
            t, c = mod.typed(ts)
            ts.expect(",")
            ts.expect("label")
            a = name(ts.next()[1])
            ts.expect(",")
            ts.expect("label")
            return ("br", None, c, a, name(ts.next()[1]))
        if op == "switch":
            t, v = mod.typed(ts)
            ts.expect(",")
            ts.expect("label")
            d = name(ts.next()[1])
            ts.expect("[")
            cases = []
            while not ts.eat("]"):
                a, k = mod.typed(ts)
                ts.expect(",")
                ts.expect("label")
                cases.append((k[1], name(ts.next()[1])))
            return ("switch", None, t, v, d, cases)
        if op == "phi":
            t = ts.type()
            inc = {}
            while True:
                ts.expect("[")
                v = mod.operand(ts, t)
                ts.expect(",")
                inc[name(ts.next()[1])] = v
                ts.expect("]")
                if not ts.eat(","):
                    break
            return ("phi", dest, t, inc)
        if op == "select":
            ct, c = mod.typed(ts)
            ts.expect(",")
            t, a = mod.typed(ts)
            ts.expect(",")
            return ("select", dest, t, c, a, mod.typed(ts)[1], ct)
        if op == "ret":
            if ts.peek()[1] == "void":
                return ("ret", None, None, None)
            t, v = mod.typed(ts)
            return ("ret", None, t, v)
        if op == "unreachable":
            return ("unreachable", None)
        if op == "alloca":
            t = ts.type()
            n = ("k", 1)
            if ts.eat(",") and ts.peek()[1] != "align":
                n = mod.typed(ts)[1]
            return ("alloca", dest, t, n)
        if op in ("call", "invoke"):
            mod.attrs(ts)
            ts.fn_ok = True
            t = ts.type()
            ts.fn_ok = False
            if t[0] == "fn":
                t = t[1]
            k, x = ts.peek()
            if x == "asm":
                return ("asm", dest, t)
            callee = mod.operand(ts, PTR)
            args = mod.args(ts)
            if op == "invoke":
                mod.attrs(ts)
                while ts.peek()[1] != "to":
                    ts.next()
                ts.next()
                ts.expect("label")
                return ("invoke", dest, t, callee, args, name(ts.next()[1]))
            return ("call", dest, t, callee, args)
        if op == "extractvalue":
            t, v = mod.typed(ts)
            idx = []
            while ts.eat(","):
                idx.append(int(ts.next()[1]))
            return ("extractvalue", dest, t, v, idx)
        if op == "insertvalue":
            t, v = mod.typed(ts)
            ts.expect(",")
            t2, x = mod.typed(ts)
            idx = []
            while ts.eat(","):
                idx.append(int(ts.next()[1]))
            return ("insertvalue", dest, t, v, x, idx)
        if op == "atomicrmw":
            if ts.eat("volatile"):
                pass
            o = ts.next()[1]
            p = mod.typed(ts)[1]
            ts.expect(",")
            t, v = mod.typed(ts)
            return ("atomicrmw", dest, o, p, t, v)
        if op == "cmpxchg":
            ts.eat("weak")
            ts.eat("volatile")
            p = mod.typed(ts)[1]
            ts.expect(",")
            t, a = mod.typed(ts)
            ts.expect(",")
            return ("cmpxchg", dest, p, t, a, mod.typed(ts)[1])
        if op == "fence":
            return ("nop", None)
        if op == "freeze":
            t, v = mod.typed(ts)
            return ("freeze", dest, t, v)
        if op == "extractelement":
            t, v = mod.typed(ts)
            ts.expect(",")
            return ("extractelement", dest, t, v, mod.typed(ts)[1])
        if op == "insertelement":
            t, v = mod.typed(ts)
            ts.expect(",")
            a = mod.typed(ts)[1]
            ts.expect(",")
            return ("insertelement", dest, t, v, a, mod.typed(ts)[1])
        if op == "shufflevector":
            t, v = mod.typed(ts)
            ts.expect(",")
            w = mod.typed(ts)[1]
            ts.expect(",")
            mt, m = mod.typed(ts)
            return ("shufflevector", dest, t, v, w, mt, m)
        return ("unsupported", dest, op)


def uses(x, out):
    """Names of the registers in an operand, or anything made of operands."""
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "r" and isinstance(x[1], str):
        out.add(x[1])
    elif isinstance(x, (tuple, list)):
        for y in x:
            if isinstance(y, (tuple, list)):
                uses(y, out)


def result_type(mod, ins):
    op = ins[0]
    if op in ("bin", "cmpxchg"):
        return ins[3] if op == "bin" else ("s", [ins[3], ("i", 1)], False)
    if op == "cast":
        return ins[5]
    if op == "icmp":
        t = mod.resolve(ins[3])
        return ("V", t[1], ("i", 1)) if t[0] == "V" else ("i", 1)
    if op in ("gep", "alloca"):
        return PTR
    if op == "atomicrmw":
        return ins[4]
    if op == "extractvalue":
        t = mod.resolve(ins[2])
        for i in ins[4]:
            t = mod.resolve(t[1][i] if t[0] == "s" else t[2])
        return t
    if op == "extractelement":
        return mod.resolve(ins[2])[2]
    if op == "shufflevector":
        return ("V", mod.resolve(ins[5])[1], mod.resolve(ins[2])[2])
    return ins[2] if len(ins) > 2 else None


def liveness(fn):
    """Registers live on entry of each block (after its phis)."""
    if hasattr(fn, "live_in"):
        return
    types = dict(fn.params)
    gen, kill, succ, phi = {}, {}, {}, {}
    for b in fn.order:
        g, k = set(), set()
        for ins in fn.block(b):
            if ins[0] == "phi":
                for pred, v in ins[3].items():
                    uses(v, phi.setdefault((pred, b), set()))
            else:
                u = set()
                uses(ins[2:], u)
                g |= u - k
            if ins[1] is not None:
                types[ins[1]] = result_type(fn.mod, ins)
                k.add(ins[1])
        t = fn.block(b)[-1]
        succ[b] = {"jmp": lambda: [t[2]], "br": lambda: [t[3], t[4]], "switch": lambda: [t[4]] + [x for _, x in t[5]], "invoke": lambda: [t[5]]}.get(t[0], lambda: [])()
        gen[b], kill[b] = g, k
    phis = {b: {ins[1] for ins in fn.block(b) if ins[0] == "phi"} for b in fn.order}
    live = {b: set() for b in fn.order}
    out = {b: set() for b in fn.order}
    changed = True
    while changed:
        changed = False
        for b in reversed(fn.order):
            o = set()
            for x in succ[b]:
                o |= (live[x] - phis[x]) | phi.get((b, x), set())
            n = gen[b] | (o - (kill[b] - phis[b]))
            if o != out[b] or n != live[b]:
                out[b], live[b], changed = o, n, True
    fn.live_in, fn.live_out, fn.types, fn.live_cache = live, out, types, {}


def live_at(fn, b, ip):
    """Registers (with types) live just before an instruction."""
    liveness(fn)
    r = fn.live_cache.get((b, ip))
    if r is None:
        l = set(fn.live_out[b])
        for ins in reversed(fn.block(b)[ip:]):
            if ins[0] == "phi":
                break
            l.discard(ins[1])
            uses(ins[2:], l)
        # At a call the frame waits for, the destination is not live yet, but it is not in the registers either.
        r = fn.live_cache[(b, ip)] = {x: fn.types.get(x) for x in l}
    return r


if __name__ == "__main__":
    import sys, time
    t0 = time.time()
    m = Module(open(sys.argv[1]).read())
    bad = {}
    for f in m.fdefs:
        try:
            fn = m.function(f)
            for b in fn.order:
                for ins in fn.block(b):
                    if ins[0] == "unsupported":
                        bad.setdefault("unsupported " + ins[2], []).append(f)
        except Exception as e:
            bad.setdefault(repr(e)[:150], []).append(f)
    for g in m.globals:
        try:
            m.global_init(g)
        except Exception as e:
            bad.setdefault("global " + repr(e)[:150], []).append(g)
    print(len(m.fdefs), "functions", len(m.globals), "globals", round(time.time() - t0, 2), "s")
    for k, v in bad.items():
        print(len(v), k, v[:2])
