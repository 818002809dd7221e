"""Symbolic execution of LLVM IR: paths are explored depth first, z3 decides which branches are feasible and which events can happen.

Concrete values are Python integers, symbolic ones z3 bit-vectors (z3 Booleans for i1).  Every object has its own concrete base
address and a byte array; a byte is an integer, a bit-vector of 8 bits, or None (never written).  Pointers are plain 64-bit values,
so an access is legal exactly if its address lies in a live object.
"""
import heapq, re, time
import z3
import llir

SLOT = 24
M64 = (1 << 64) - 1
HUGE = 1 << 16
DEBUG = False


def is_sym(v):
    return isinstance(v, z3.ExprRef)


class Event(Exception):
    """Something the path ends with: kind is panic, fail, memory, abort, unreachable, or an engine limit (limit, unsupported)."""

    def __init__(self, kind, text, cond=None):
        Exception.__init__(self, kind, text)
        self.kind, self.text, self.cond = kind, text, cond


class Infeasible(Exception):
    pass


class Forked(Exception):
    """The instruction is to be run again in each of these states."""

    def __init__(self, states):
        self.states = states


class Obj:
    __slots__ = ("base", "size", "max", "bytes", "alive", "kind", "name", "owner", "const", "words")

    def __init__(self, base, size, mx, data, kind, nm, owner, const=False):
        self.base, self.size, self.max, self.bytes, self.alive, self.kind, self.name, self.owner, self.const = base, size, mx, data, True, kind, nm, owner, const
        self.words = set()

    def clone(self, owner):
        o = Obj(self.base, self.size, self.max, list(self.bytes), self.kind, self.name, owner, self.const)
        o.alive = self.alive
        o.words = set(self.words)
        return o


class Frame:
    __slots__ = ("fn", "block", "ip", "prev", "regs", "allocas", "dest", "rtype", "normal", "iters")

    def __init__(self, fn, dest=None, rtype=None, normal=None):
        self.fn, self.block, self.ip, self.prev, self.regs, self.allocas, self.iters = fn, fn.entry, 0, None, {}, [], ()
        self.dest, self.rtype, self.normal = dest, rtype, normal

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.ip, f.prev, f.regs, f.allocas = self.fn, self.block, self.ip, self.prev, dict(self.regs), list(self.allocas)
        f.dest, f.rtype, f.normal, f.iters = self.dest, self.rtype, self.normal, self.iters
        return f


class State:
    def __init__(self):
        self.frames, self.mem, self.pc, self.inputs, self.reached, self.token, self.next, self.steps = [], {}, [], [], set(), object(), 0, 0
        self.notes, self.nvars, self.watch, self.model, self.mallocs = [], 0, {}, None, ()
        self.calls = self.playing = None

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem, s.pc, s.inputs, s.reached = dict(self.mem), list(self.pc), list(self.inputs), set(self.reached)
        s.token, self.token = object(), object()
        s.next, s.steps, s.notes, s.nvars, s.watch, s.model = self.next, self.steps, list(self.notes), self.nvars, dict(self.watch), self.model
        s.mallocs, s.calls, s.playing = self.mallocs, self.calls, self.playing
        return s


def order(fn):
    """A weak topological order: block -> its path of (component index, is the component's head) down the nest of loops."""
    w = getattr(fn, "wto", None)
    if w is not None:
        return w
    succ = {}
    todo = [fn.entry]
    while todo:
        b = todo.pop()
        if b in succ:
            continue
        t = fn.block(b)[-1]
        if t[0] == "jmp":
            out = [t[2]]
        elif t[0] == "br":
            out = [t[3], t[4]]
        elif t[0] == "switch":
            out = [t[4]] + [x for _, x in t[5]]
        elif t[0] == "invoke":
            out = [t[5]]
        else:
            out = []
        succ[b] = out
        todo += out
    npred = {}
    for b, out in succ.items():
        for x in set(out):
            npred[x] = npred.get(x, 0) + 1
    paths = {}

    def place(nodes, entry, cut, prefix):
        """nodes: a set; edges into `cut` are ignored."""
        index, low, on, stack, comps, n = {}, {}, set(), [], [], [0]
        for root in [entry] + sorted(nodes):
            if root in index:
                continue
            work = [(root, iter([x for x in succ[root] if x in nodes and x != cut]))]
            index[root] = low[root] = n[0]
            n[0] += 1
            stack.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                for x in it:
                    if x not in index:
                        index[x] = low[x] = n[0]
                        n[0] += 1
                        stack.append(x)
                        on.add(x)
                        work.append((x, iter([y for y in succ[x] if y in nodes and y != cut])))
                        break
                    elif x in on:
                        low[v] = min(low[v], index[x])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        c = set()
                        while True:
                            x = stack.pop()
                            on.discard(x)
                            c.add(x)
                            if x == v:
                                break
                        comps.append((v, c))
        for k, (head, c) in enumerate(reversed(comps)):
            if len(c) == 1 and (head == cut or head not in succ[head]):
                paths[head] = prefix + ((k, None),)
            else:
                place(c, head, head, prefix + ((k, head),))

    place(set(succ), fn.entry, None, ())
    fn.wto = paths
    fn.npred = npred
    return paths


PANICS = re.compile(r"(core9panicking|std9panicking|rust_begin_unwind|rust_panic|core6result13unwrap_failed|core6option13expect_failed|"
                    r"core5slice.*_fail|core3str16slice_error_fail|core4cell.*already|alloc.*capacity_overflow|rust_oom|handle_alloc_error)")


class Executor:
    def __init__(self, mod, limits=None):
        self.mod = mod
        self.solver = z3.Solver()
        self.solver.set("timeout", 60000)
        self.stack = []
        self.limits = dict(steps=400000, paths=20000, seconds=600, draws=1000, witnesses=6)
        self.limits.update(limits or {})
        self.queries, self.solver_s, self.branches, self.steps = 0, 0.0, 0, 0
        self.functions, self.unknown, self.reused, self.forks = set(), 0, 0, {}
        self.hooks, self.cut = {}, 0
        self.merging = False

    # ------------------------------------------------------------ solver
    def sync(self, pc):
        k = 0
        n = min(len(pc), len(self.stack))
        while k < n and self.stack[k] is pc[k]:
            k += 1
        while len(self.stack) > k:
            self.solver.pop()
            self.stack.pop()
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            self.stack.append(c)

    def check(self, st, *extra):
        """sat / unsat of the path condition with the extra constraints."""
        if st.model is not None:
            # A model found before may serve again.
            n, m = st.model
            if all(z3.is_true(m.eval(c, model_completion=True)) for c in st.pc[n:]):
                st.model = (len(st.pc), m)
                if all(z3.is_true(m.eval(c, model_completion=True)) for c in extra):
                    self.last_model = m
                    self.reused += 1
                    return True
            else:
                st.model = None
        t = time.time()
        self.last_model = None
        self.sync(st.pc)
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        if r == z3.sat:
            self.last_model = self.solver.model()
        self.solver.pop()
        if r == z3.sat:
            st.model = (len(st.pc), self.last_model)
        self.queries += 1
        self.solver_s += time.time() - t
        if r == z3.unknown:
            self.unknown += 1
            raise Event("limit", "the solver gave up")
        return r == z3.sat

    def feasible(self, st):
        try:
            r = self.check(st)
        except Event:
            return True
        st.unchecked = False
        return r

    def forked(self, cs):
        """Together these conditions are always true."""
        if self.merging:
            node = object()
            for c in cs:
                self.forks[id(c)] = (node, len(cs), 1, c)

    def add(self, st, c):
        if c is True or z3.is_true(c):
            return
        st.pc.append(c)

    def assume(self, st, c):
        if not is_sym(c):
            if not c:
                raise Infeasible()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c) or not self.check(st, c):
            raise Infeasible()
        st.pc.append(c)

    def decide(self, st, cond):
        """The possible outcomes of a Boolean: [True], [False] or both."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [True]
        if z3.is_false(c):
            return [False]
        if st.model is None or not self.holds(st, c) and not self.holds(st, z3.Not(c)):
            if not self.check(st):
                raise Infeasible()
        m = st.model
        if z3.is_true(m[1].eval(c, model_completion=True)):
            return [True, False] if self.check(st, z3.Not(c)) and self.back(st, m) else [True]
        return [True, False] if self.check(st, c) and self.back(st, m) else [False]

    def holds(self, st, c):
        n, m = st.model
        return all(z3.is_true(m.eval(x, model_completion=True)) for x in st.pc[n:] + [c])

    def back(self, st, m):
        """Keep the older model, and the newer one for the other side of the branch."""
        st.other = st.model
        st.model = m
        return True

    def values(self, st, e, limit, what):
        """All values of an expression, at most `limit`."""
        out, ex = [], []
        while True:
            if not self.check(st, *ex):
                return out
            v = self.last_model.eval(e, model_completion=True)
            out.append(v.as_long())
            if len(out) > limit:
                raise Event("limit", "more than %d values: %s" % (limit, what))
            ex.append(e != v)

    def concretize(self, st, e, limit, what):
        """A concrete value; forks when there are several."""
        if not is_sym(e):
            return e
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        vs = self.values(st, e, limit, what)
        if not vs:
            raise Infeasible()
        if len(vs) == 1:
            return vs[0]
        out = []
        for v in vs:
            s = st.fork()
            s.pc.append(e == v)
            out.append(s)
        raise Forked(out)

    # ------------------------------------------------------------ values
    def bv(self, v, n):
        if isinstance(v, int):
            return z3.BitVecVal(v, n) if n > 1 else z3.BoolVal(bool(v))
        return v

    def fix(self, e):
        """An integer if the expression is constant."""
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return e

    def undef(self, t):
        t = self.mod.resolve(t)
        if t[0] == "s":
            return [self.undef(x) for x in t[1]]
        if t[0] in "aV":
            return [self.undef(t[2]) for _ in range(t[1])]
        return 0

    def val(self, st, o, t):
        k = o[0]
        if k == "k":
            return o[1]
        if k == "r":
            return st.frames[-1].regs[o[1]]
        if k == "g":
            return self.address_of(st, o[1])
        if k in "uz":
            return self.undef(o[1])
        if k == "agg":
            return [self.val(st, x, None) for x in o[1]]
        if k == "x":
            if o[1] == "gep":
                return self.gep(st, o[2], o[3])
            if o[1] == "cast":
                return self.cast(o[2], o[3], self.val(st, o[4], o[3]), o[5])
            if o[1] == "bin":
                return self.binary(st, o[2], o[3], self.val(st, o[4], o[3]), self.val(st, o[5], o[3]))
            if o[1] == "icmp":
                return self.icmp(o[2], o[3], self.val(st, o[4], o[3]), self.val(st, o[5], o[3]))
        raise Event("unsupported", "operand %r" % (o,))

    def width(self, t):
        t = self.mod.resolve(t)
        if t[0] == "i":
            return t[1]
        if t[0] == "p":
            return 64
        raise Event("unsupported", "width of %r" % (t,))

    def sext(self, v, n):
        return v - (1 << n) if v >> (n - 1) & 1 else v

    def binary(self, st, op, t, a, b):
        t = self.mod.resolve(t)
        if t[0] == "V":
            return [self.binary(st, op, t[2], x, y) for x, y in zip(a, b)]
        n = self.width(t)
        m = (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < n else 0
            if op == "lshr":
                return a >> b if b < n else 0
            if op == "ashr":
                return (self.sext(a, n) >> min(b, n - 1)) & m
            if b == 0:
                raise Event("memory", "division by zero")
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = self.sext(a, n), self.sext(b, n)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == "sdiv" else x - q * y) & m
        # Cheap identities.
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                if op == "and" and y == 0:
                    return 0
                if op == "and" and y == m or op in ("or", "xor") and y == 0 or op == "add" and y == 0:
                    return x
        if isinstance(b, int) and b == 0 and op in ("sub", "shl", "lshr", "ashr"):
            return a
        x, y = self.bv(a, n), self.bv(b, n)
        if n == 1:
            if op == "and":
                return self.fix(z3.And(x, y))
            if op == "or":
                return self.fix(z3.Or(x, y))
            if op in ("xor", "add", "sub"):
                return self.fix(z3.Xor(x, y))
            raise Event("unsupported", op + " on i1")
        if op in ("udiv", "urem", "sdiv", "srem") and is_sym(b):
            if self.check(st, b == 0):
                raise Event("memory", "division by zero", b == 0)
        e = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
             "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
             "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]()
        return self.fix(e)

    def icmp(self, pred, t, a, b):
        t = self.mod.resolve(t)
        if t[0] == "V":
            return [self.icmp(pred, t[2], x, y) for x, y in zip(a, b)]
        n = self.width(t)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a, b = self.sext(a, n), self.sext(b, n)
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred if len(pred) == 2 else pred[1:]])
        x, y = self.bv(a, n), self.bv(b, n)
        if n == 1:
            e = x == y
            if pred == "eq":
                return self.fix(e)
            if pred == "ne":
                return self.fix(z3.Not(e))
            if pred == "ult":
                return self.fix(z3.And(z3.Not(x), y))
            if pred == "ugt":
                return self.fix(z3.And(x, z3.Not(y)))
            if pred == "ule":
                return self.fix(z3.Or(z3.Not(x), y))
            if pred == "uge":
                return self.fix(z3.Or(x, z3.Not(y)))
            raise Event("unsupported", "icmp %s i1" % pred)
        e = {"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "ult": lambda: z3.ULT(x, y),
             "ule": lambda: z3.ULE(x, y), "sgt": lambda: x > y, "sge": lambda: x >= y, "slt": lambda: x < y, "sle": lambda: x <= y}[pred]()
        return self.fix(e)

    def cast(self, op, a, v, b):
        a, b = self.mod.resolve(a), self.mod.resolve(b)
        if op == "bitcast" and (a[0] in "V" or b[0] in "V"):
            return self.unpack(self.pack(v, a), b)
        if a[0] == "V":
            return [self.cast(op, a[2], x, b[2]) for x in v]
        if op in ("bitcast", "addrspacecast"):
            return v
        if a[0] == "f" or b[0] == "f":
            raise Event("unsupported", "floating point")
        n, m = self.width(a), self.width(b)
        if isinstance(v, int):
            if op == "sext":
                return self.sext(v, n) & ((1 << m) - 1)
            return v & ((1 << m) - 1)
        if m == n:
            return v
        if op in ("zext", "ptrtoint", "inttoptr", "trunc"):
            if n == 1:
                return z3.If(v, z3.BitVecVal(1, m), z3.BitVecVal(0, m))
            if m > n:
                return self.fix(z3.ZeroExt(m - n, v))
            if m == 1:
                return self.fix(z3.Extract(0, 0, v) == 1)
            return self.fix(z3.Extract(m - 1, 0, v))
        if op == "sext":
            if n == 1:
                return z3.If(v, z3.BitVecVal((1 << m) - 1, m), z3.BitVecVal(0, m))
            return self.fix(z3.SignExt(m - n, v))
        raise Event("unsupported", op)

    # vector <-> bits
    def pack(self, v, t):
        t = self.mod.resolve(t)
        if t[0] != "V":
            return v, self.width(t)
        n = self.width(t[2])
        if all(isinstance(x, int) for x in v):
            r = 0
            for i, x in enumerate(v):
                r |= x << (i * n)
            return r, n * len(v)
        xs = [self.bv(x, n) if n > 1 else z3.If(self.bv(x, 1), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in v]
        return z3.Concat(*reversed(xs)), n * len(v)

    def unpack(self, vn, t):
        v, n = vn
        t = self.mod.resolve(t)
        if t[0] != "V":
            return v
        m = self.width(t[2])
        if isinstance(v, int):
            return [v >> (i * m) & ((1 << m) - 1) for i in range(t[1])]
        out = [self.fix(z3.Extract((i + 1) * m - 1, i * m, v)) for i in range(t[1])]
        return [self.fix(x == 1) if m == 1 and is_sym(x) else x for x in out]

    def ite(self, c, a, b, t):
        if isinstance(a, list):
            t = self.mod.resolve(t)
            ts = t[1] if t[0] == "s" else [t[2]] * t[1]
            return [self.ite(c, x, y, u) for x, y, u in zip(a, b, ts)]
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if is_sym(a) and is_sym(b) and a.eq(b):
            return a
        n = self.width(t)
        return self.fix(z3.If(c, self.bv(a, n), self.bv(b, n)))

    # ------------------------------------------------------------ memory
    def new(self, st, size, data, kind, nm, mx=None, const=False):
        i = st.next
        st.next += 1
        base = (i + 1) << SLOT | 1 << 12
        st.mem[i] = Obj(base, size, size if mx is None else mx, data, kind, nm, st.token, const)
        return base

    def global_const(self, nm):
        return nm in self.mod.fdefs or nm in self.mod.decls

    def address_of(self, st, nm):
        a = self.gaddr.get(nm)
        if a is None:
            if self.global_const(nm):
                a = (len(self.faddr) + 1) << 8 | 1 << 60
                self.faddr[a] = nm
                self.gaddr[nm] = a
                return a
            t, init, const = self.mod.global_init(nm)
            if t == "alias":
                return self.val(st, init, llir.PTR)
            # The address is the same in every state; the object is made where it is first needed.
            self.gaddr[nm] = a = (1 << 20 | len(self.gobjs)) << SLOT | 1 << 12
            self.gobjs[a >> SLOT] = (nm, t, init, const)
        return a

    def gobject(self, st, slot):
        g = self.gobjs.get(slot)
        if g is None:
            return None
        nm, t, init, const = g
        size = self.mod.size(t)
        data = [0] * size
        o = Obj(slot << SLOT | 1 << 12, size, size, data, "global", nm, st.token, const)
        st.mem[slot - 1] = o
        if init is not None:
            self.put(st, data, 0, init, t)
        return o

    def put(self, st, data, off, o, t):
        """A constant initializer."""
        t = self.mod.resolve(t)
        if o[0] in "uz":
            return
        if t[0] == "s":
            offs = self.mod.layout(t)[0]
            for f, x, u in zip(offs, o[1], t[1]):
                self.put(st, data, off + f, x, u)
        elif t[0] in "aV":
            n = self.mod.size(t[2])
            for i, x in enumerate(o[1]):
                self.put(st, data, off + i * n, x, t[2])
        else:
            v = self.val(st, o, t)
            for i in range(self.mod.store_size(t)):
                data[off + i] = v >> (8 * i) & 255

    def lookup(self, st, addr):
        i = (addr >> SLOT) - 1
        o = st.mem.get(i)
        if o is None:
            o = self.gobject(st, i + 1)
        return o

    def where(self, st):
        return " < ".join(f.fn.name for f in reversed(st.frames[-4:]))

    def access(self, st, addr, n, write=False):
        """(object, offset) of an access of n bytes; the offset may be symbolic.  Raises what can go wrong."""
        if not isinstance(addr, int):
            addr = self.fix(addr)
        if isinstance(addr, int):
            o = self.lookup(st, addr)
            if o is None:
                raise Event("memory", "access to an invalid address %#x" % addr if addr > 4096 else "access through a null pointer")
            off = addr - o.base
            self.bounds(st, o, off, n, write)
            return o, off
        if not self.check(st):
            raise Infeasible()
        a = self.last_model.eval(addr, model_completion=True).as_long()
        o = self.lookup(st, a)
        if o is None:
            raise Event("memory", "access to an invalid address", addr == a)
        slot = o.base >> SLOT
        inside = z3.LShR(addr, SLOT) == slot
        if self.check(st, z3.Not(inside)):
            s1, s2 = st.fork(), st.fork()
            s1.pc.append(inside)
            s2.pc.append(z3.Not(inside))
            raise Forked([s1, s2])
        off = self.fix(addr - o.base)
        self.bounds(st, o, off, n, write)
        return o, off

    def bounds(self, st, o, off, n, write):
        if o.alive is not True:
            self.must_live(st, o, "use of memory after it was freed (%s %s)" % (o.kind, o.name))
        if write and o.const:
            raise Event("memory", "write to constant memory %s" % o.name)
        if isinstance(off, int) and isinstance(o.size, int):
            if off < 0 or off + n > o.size:
                raise Event("memory", "access out of bounds: %d bytes at %d of %d (%s %s)" % (n, off, o.size, o.kind, o.name))
            return
        f, s = self.bv(off & M64 if isinstance(off, int) else off, 64), self.bv(o.size, 64)
        ok = z3.And(z3.ULE(f, s), z3.ULE(z3.BitVecVal(n, 64), s - f))
        if self.check(st, z3.Not(ok)):
            s2 = self.check(st, ok)
            e = Event("memory", "access out of bounds: %d bytes (%s %s)" % (n, o.kind, o.name), z3.Not(ok))
            e.go_on = ok if s2 else None
            raise e

    def must_live(self, st, o, text):
        if o.alive is False:
            raise Event("memory", text)
        if self.check(st, z3.Not(o.alive)):
            e = Event("memory", text, z3.Not(o.alive))
            e.go_on = o.alive if self.check(st, o.alive) else None
            raise e

    def byte(self, x):
        return z3.BitVecVal(x, 8) if isinstance(x, int) else x

    def combine(self, bs):
        """Little-endian bytes to a value."""
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), "little")
        bs = [0 if b is None else b for b in bs]
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), "little")
        if len(bs) == 1:
            return bs[0]
        return self.fix(z3.Concat(*[self.byte(b) for b in reversed(bs)]))

    def read(self, st, o, off, n):
        if isinstance(off, int):
            return o.bytes[off:off + n]
        # A symbolic offset: one byte is a chain of conditionals.
        lo, hi = self.range_of(st, off, o.max - n)
        out = []
        for j in range(n):
            e = None
            for k in range(hi, lo - 1, -1):
                b = o.bytes[k + j]
                b = self.byte(0 if b is None else b)
                e = b if e is None else z3.If(off == k, b, e)
            out.append(e if e is not None else 0)
        return out

    def range_of(self, st, e, top):
        """Bounds of an unsigned expression known to be at most top."""
        lo, hi = 0, top
        # A few bisections on either side keep the chains short.
        a, b = 0, top
        for _ in range(12):
            if a >= b:
                break
            m = (a + b) // 2
            if self.check(st, z3.ULE(e, m)):
                b = m
            else:
                a = m + 1
        lo = a
        a, b = lo, top
        for _ in range(12):
            if a >= b:
                break
            m = (a + b + 1) // 2
            if self.check(st, z3.UGE(e, m)):
                a = m
            else:
                b = m - 1
        return lo, b

    def own(self, st, o):
        if o.owner is not st.token:
            o = o.clone(st.token)
            st.mem[(o.base >> SLOT) - 1] = o
        return o

    def write(self, st, o, off, bs, word=False):
        o = self.own(st, o)
        if isinstance(off, int):
            o.bytes[off:off + len(bs)] = bs
            if word:
                o.words.add(off)
            elif len(bs) < 8:
                o.words.discard(off & ~7)
            return
        lo, hi = self.range_of(st, off, o.max - len(bs))
        for k in range(lo, hi + len(bs)):
            e = o.bytes[k]
            for j, b in enumerate(bs):
                if lo <= k - j <= hi:
                    e = z3.If(off == k - j, self.byte(0 if b is None else b), self.byte(0 if e is None else e))
            o.bytes[k] = e

    def split(self, v, n):
        """A value of n bytes to its bytes."""
        if isinstance(v, int):
            return list(v.to_bytes(n, "little"))
        if v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        if n == 1:
            return [self.fix(v)]
        return [self.fix(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]

    def load(self, st, addr, t):
        t = self.mod.resolve(t)
        if t[0] == "s":
            offs = self.mod.layout(t)[0]
            return [self.load(st, self.offset(addr, f), u) for f, u in zip(offs, t[1])]
        if t[0] == "a":
            n = self.mod.size(t[2])
            return [self.load(st, self.offset(addr, i * n), t[2]) for i in range(t[1])]
        if t[0] == "V":
            n = self.width(t[2]) * t[1]
            o, off = self.access(st, addr, n // 8)
            return self.unpack((self.combine(self.read(st, o, off, n // 8)), n), t)
        if t[0] == "f":
            raise Event("unsupported", "floating point")
        n = self.mod.store_size(t)
        o, off = self.access(st, addr, n)
        v = self.combine(self.read(st, o, off, n))
        w = self.width(t)
        if w != 8 * n:
            if isinstance(v, int):
                v &= (1 << w) - 1
            elif w == 1:
                v = self.fix(z3.Extract(0, 0, v) == 1)
            else:
                v = self.fix(z3.Extract(w - 1, 0, v))
        return v

    def offset(self, addr, k):
        if isinstance(addr, int):
            return (addr + k) & M64
        return addr + k

    def store(self, st, addr, v, t):
        t = self.mod.resolve(t)
        if t[0] == "s":
            for f, u, x in zip(self.mod.layout(t)[0], t[1], v):
                self.store(st, self.offset(addr, f), x, u)
            return
        if t[0] == "a":
            n = self.mod.size(t[2])
            for i, x in enumerate(v):
                self.store(st, self.offset(addr, i * n), x, t[2])
            return
        if t[0] == "V":
            v, w = self.pack(v, t)
            n = w // 8
        elif t[0] == "f":
            raise Event("unsupported", "floating point")
        else:
            n = self.mod.store_size(t)
            if is_sym(v) and z3.is_bool(v):
                v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        o, off = self.access(st, addr, n, True)
        self.write(st, o, off, self.split(v, n), n == 8)

    def gep(self, st, base, args):
        addr = self.val(st, args[0][1], args[0][0])
        t = base
        off = 0
        for i, (it, io) in enumerate(args[1:]):
            v = self.val(st, io, it)
            n = self.width(it)
            if i == 0:
                step = self.mod.size(t)
            else:
                t = self.mod.resolve(t)
                if t[0] == "s":
                    off = self.offset(off, self.mod.layout(t)[0][v])
                    t = t[1][v]
                    continue
                t = t[2]
                step = self.mod.size(t)
            if isinstance(v, int):
                off = self.offset(off, self.sext(v, n) * step)
            else:
                if n < 64:
                    v = z3.SignExt(64 - n, v)
                off = (v * step) + off
        if isinstance(addr, int) and isinstance(off, int):
            return (addr + off) & M64
        return self.fix(self.bv(addr, 64) + self.bv(off & M64 if isinstance(off, int) else off, 64))

    # ------------------------------------------------------------ library
    def upper(self, st, e, what):
        """The largest value of an expression; an allocation or copy of more than HUGE bytes is an event."""
        if not isinstance(e, int):
            big = z3.UGT(e, HUGE)
            if self.check(st, big):
                ev = Event("huge", "%s of more than %d bytes" % (what, HUGE), big)
                ev.go_on = z3.Not(big) if self.check(st, z3.Not(big)) else None
                raise ev
            return self.range_of(st, e, HUGE)[1]
        if e > HUGE:
            raise Event("huge", "%s of %d bytes" % (what, e))
        return e

    def malloc(self, st, size, zero=False, nm="malloc"):
        mx = self.upper(st, size, "allocation")
        return self.new(st, size, [0 if zero else None] * mx, "heap", nm, mx)

    def free(self, st, p):
        if not isinstance(p, int):
            p = self.concretize(st, p, 16, "freed pointer")
        if p == 0:
            return
        o = self.lookup(st, p)
        if o is None or o.kind != "heap" or p != o.base:
            raise Event("memory", "free of a pointer which was not allocated")
        if o.alive is not True:
            self.must_live(st, o, "double free")
        w = st.watch.get(o.base)
        if w:
            self.check_zero(st, o, w)
        o = self.own(st, o)
        o.alive = False

    def check_zero(self, st, o, ranges):
        for off, n, label in ranges:
            for b in o.bytes[off:off + n]:
                if isinstance(b, int) and b == 0:
                    continue
                if b is None or isinstance(b, int):
                    raise Event("fail", label)
                if self.check(st, b != 0):
                    raise Event("fail", label, b != 0)

    def memcpy(self, st, d, s, n):
        if isinstance(n, int):
            if n == 0:
                return
            self.upper(st, n, "copy")
            o, off = self.access(st, s, n)
            bs = list(self.read(st, o, off, n))
            o, off = self.access(st, d, n, True)
            self.write(st, o, off, bs)
            return
        n = self.fix(n)
        if isinstance(n, int):
            return self.memcpy(st, d, s, n)
        d, s = self.concretize(st, d, 64, "copy destination"), self.concretize(st, s, 64, "copy source")
        if self.check(st, n == 0):
            if not self.check(st, n != 0):
                return
            s1, s2 = st.fork(), st.fork()
            s1.pc.append(n == 0)
            s2.pc.append(n != 0)
            raise Forked([s1, s2])
        mx = self.upper(st, n, "copy")
        (so, soff), (do, doff) = self.access(st, s, 1), self.access(st, d, 1, True)
        for o, off in ((so, soff), (do, doff)):
            ok = z3.ULE(n, self.bv(o.size, 64) - off)
            if self.check(st, z3.Not(ok)):
                ev = Event("memory", "copy out of bounds (%s %s)" % (o.kind, o.name), z3.Not(ok))
                ev.go_on = ok if self.check(st, ok) else None
                raise ev
        mx = min(mx, so.max - soff, do.max - doff)
        src = so.bytes[soff:soff + mx]
        do = self.own(st, do)
        for i in range(mx):
            a, b = src[i], do.bytes[doff + i]
            if a is None and b is None:
                continue
            do.bytes[doff + i] = self.fix(z3.If(z3.UGT(n, i), self.byte(0 if a is None else a), self.byte(0 if b is None else b)))

    def memset(self, st, d, v, n):
        n = self.concretize(st, n, 600, "memset length") if not isinstance(n, int) else n
        if n == 0:
            return
        self.upper(st, n, "memset")
        o, off = self.access(st, d, n, True)
        self.write(st, o, off, [v] * n)

    def memcmp(self, st, a, b, n):
        n = self.concretize(st, n, 600, "memcmp length")
        if n == 0:
            return 0
        o, f = self.access(st, a, n)
        x = self.read(st, o, f, n)
        o, f = self.access(st, b, n)
        y = self.read(st, o, f, n)
        r = z3.BitVecVal(0, 32)
        for p, q in reversed(list(zip(x, y))):
            p, q = self.byte(0 if p is None else p), self.byte(0 if q is None else q)
            r = z3.If(p == q, r, z3.If(z3.ULT(p, q), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32)))
        return self.fix(r)

    def text(self, st, p, n):
        o, off = self.access(st, p, n)
        return bytes(b if isinstance(b, int) else 63 for b in o.bytes[off:off + n]).decode("utf-8", "replace")

    def str_at(self, st, p):
        """The &str stored at p, for messages."""
        try:
            a, n = self.load(st, p, llir.PTR), self.load(st, p + 8, ("i", 64))
            return self.text(st, a, n) if isinstance(n, int) and 0 < n < 400 else ""
        except Exception:
            return ""

    def panic_text(self, st, nm, args):
        msg, locs = "", []
        for a in args:
            if isinstance(a, int) and a > 1 << 13:
                s = self.str_at(st, a)
                if s:
                    locs.append(s)
                try:
                    s2 = self.str_at(st, a + 16)
                    if s2 and s2.endswith(".rs"):
                        line = self.load(st, a + 32, ("i", 32))
                        locs.append("%s:%s" % (s2, line))
                    elif s.endswith(".rs"):
                        locs[-1] += ":%s" % self.load(st, a + 16, ("i", 32))
                except Exception:
                    pass
        return "%s %s" % (re.sub(r"17h[0-9a-f]{16}E$", "", nm), " ".join(locs))

    def any_bytes(self, st, n, kind, what):
        k = st.nvars
        st.nvars += 1
        e = [z3.BitVec("in%d_%d" % (k, i), 8) for i in range(n)]
        st.inputs.append((kind, e, what))
        return e

    def apply(self, st, p, n, kind, op, ap, an, bp, bn):
        """The abstracted result of an operation; after vp_replay, the same as before for the same operands."""
        n = self.concretize(st, n, 600, "any")
        if kind == 1 and sum(1 for x in st.inputs if x[0] == 1) >= self.limits["draws"]:
            self.cut += 1
            raise Infeasible()
        if not n:
            return
        e = None
        if st.calls is not None:
            operands = []
            for q, m in ((ap, an), (bp, bn)):
                m = self.concretize(st, m, 600, "operand")
                if m:
                    o, off = self.access(st, q, m)
                    operands += self.read(st, o, off, m)
            if any(x is None for x in operands):
                raise Event("memory", "an operand has bytes which were never written")
            if st.playing is None:
                e = self.any_bytes(st, n, kind, "any")
                st.calls = st.calls + ((op, n, operands, e),)
            else:
                k, st.playing = st.playing, st.playing + 1
                if k < len(st.calls):
                    op_, n_, old, r = st.calls[k]
                    if op_ == op and n_ == n and len(old) == len(operands):
                        c = z3.simplify(z3.And([self.bv(x, 8) == self.bv(y, 8) for x, y in zip(old, operands)] + [z3.BoolVal(True)]))
                        if z3.is_true(c):
                            e = r
                        elif not z3.is_false(c):
                            if not self.check(st, z3.Not(c)):
                                e = r
                            else:
                                f = self.any_bytes(st, n, kind, "any")
                                e = [z3.If(c, self.bv(x, 8), y) for x, y in zip(r, f)]
        if e is None:
            e = self.any_bytes(st, n, kind, "any")
        o, off = self.access(st, p, n, True)
        self.write(st, o, off, e)

    def external(self, st, nm, args, t, dest=None, normal=None):
        """The result of a call to a function without a body, or one replaced."""
        h = self.hooks.get(nm)
        if h:
            return h(self, st, args)
        if nm.startswith("llvm."):
            return self.intrinsic(st, nm, args, t)
        if nm == "vp_any":
            p, n, kind = args
            n = self.concretize(st, n, 600, "any")
            if kind == 1 and sum(1 for x in st.inputs if x[0] == 1) >= self.limits["draws"]:
                self.cut += 1
                raise Infeasible()
            if n:
                o, off = self.access(st, p, n, True)
                self.write(st, o, off, self.any_bytes(st, n, kind, "any"))
            return None
        if nm == "vp_apply":
            self.apply(st, *args)
            return None
        if nm == "vp_record":
            st.calls, st.playing = (), None
            return None
        if nm == "vp_replay":
            st.playing = 0
            return None
        if nm == "vp_assume":
            c = args[0]
            self.assume(st, c != 0 if is_sym(c) else c)
            return None
        if nm == "vp_reach":
            if self.merging and not self.check(st):
                raise Infeasible()
            st.reached.add(self.text(st, *args))
            return None
        if nm == "vp_one_of":
            return self.concretize(st, args[0], 64, "choice")
        if nm == "vp_malloc_failed":
            return int(st.mallocs[-1][0]) if st.mallocs else 0
        if nm == "vp_malloc_size":
            return st.mallocs[-1][1] if st.mallocs else 0
        if nm == "vp_fail":
            raise Event("fail", self.text(st, *args))
        if nm == "vp_buffer":
            n, mx = args
            b = self.any_bytes(st, mx, 0, "buffer")
            return self.new(st, n, list(b), "buffer", "buffer", mx)
        if nm == "vp_readable":
            # Every byte of a buffer handed out is live, in bounds and was written.
            p, n = args
            n = self.concretize(st, n, 64, "buffer length")
            if n:
                o, off = self.access(st, p, n)
                if o.kind == "stack":
                    raise Event("memory", "the buffer is on the stack")
                if any(b is None for b in self.read(st, o, off, n)):
                    raise Event("memory", "the buffer has bytes which were never written")
            return None
        if nm == "vp_must_be_zero":
            p, n, lp, ln = args
            o, off = self.access(st, p, n)
            self.check_zero(st, o, [(off, n, self.text(st, lp, ln))])
            return None
        if nm == "vp_zero_when_freed":
            p, n, lp, ln = args
            o, off = self.access(st, p, n)
            if o.kind != "heap":
                raise Event("unsupported", "watched memory is not on the heap")
            st.watch[o.base] = st.watch.get(o.base, ()) + ((off, n, self.text(st, lp, ln)),)
            return None
        if nm == "vp_freed":
            o = self.lookup(st, args[0])
            if o is None or o.alive is False:
                return 1
            return 0 if o.alive is True else self.cast("zext", ("i", 1), z3.Not(o.alive), ("i", 32))
        if nm in ("_Znwm", "vp_alloc_zeroed"):
            return self.malloc(st, args[0], nm != "_Znwm", "alloc")
        if nm == "malloc":
            # Memory of the foreign allocator, which may have none.
            b = self.any_bytes(st, 1, 3, "allocation fails")[0]
            s1, s2 = st.fork(), st.fork()
            for s, c in ((s1, b != 0), (s2, b == 0)):
                s.pc.append(c)
                s.mallocs = s.mallocs + ((s is s1, args[0]),)
                p = 0 if s is s1 else self.malloc(s, args[0])
                self.returned(s, s.frames[-1], dest, p, normal)
            raise Forked([s1, s2])
        if nm == "posix_memalign":
            self.store(st, args[0], self.malloc(st, args[2]), llir.PTR)
            return 0
        if nm == "_ZdlPv":
            self.free(st, args[0])
            return None
        if nm in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2])
            return args[0]
        if nm == "memset":
            self.memset(st, args[0], self.cast("trunc", ("i", 32), args[1], ("i", 8)), args[2])
            return args[0]
        if nm in ("memcmp", "bcmp"):
            return self.memcmp(st, *args)
        if nm == "free":
            self.free(st, args[0])
            return None
        if nm == "strlen":
            o, off = self.access(st, args[0], 1)
            return o.bytes.index(0, off) - off
        if nm == "abort":
            raise Event("abort", "abort")
        if nm == "clear_on_drop_hide":
            return args[0]
        raise Event("unsupported", "call to %s" % nm)

    def intrinsic(self, st, nm, args, t):
        b = nm.split(".")[1]
        if b in ("lifetime", "dbg", "invariant", "experimental", "donothing", "prefetch", "stackrestore"):
            return None
        if b == "assume":
            return None
        if b == "expect":
            return args[0]
        if b in ("memcpy", "memmove"):
            self.memcpy(st, *args[:3])
            return None
        if b == "memset":
            self.memset(st, *args[:3])
            return None
        if b == "trap":
            raise Event("abort", "trap")
        r = self.mod.resolve(t)
        if ".with.overflow" in nm:
            n = self.width(r[1][0])
            x, y = args
            op = b[1:]
            v = self.binary(st, op, ("i", n), x, y)
            if isinstance(x, int) and isinstance(y, int):
                if b[0] == "s":
                    x, y = self.sext(x, n), self.sext(y, n)
                w = {"add": x + y, "sub": x - y, "mul": x * y}[op]
                ok = 0 <= w < 1 << n if b[0] == "u" else -(1 << n - 1) <= w < 1 << n - 1
                return [v, int(not ok)]
            x, y = self.bv(x, n), self.bv(y, n)
            sg = b[0] == "s"
            if op == "add":
                e = z3.Not(z3.And(z3.BVAddNoOverflow(x, y, sg), z3.BVAddNoUnderflow(x, y))) if sg else z3.Not(z3.BVAddNoOverflow(x, y, False))
            elif op == "sub":
                e = z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))) if sg else z3.ULT(x, y)
            else:
                e = z3.Not(z3.And(z3.BVMulNoOverflow(x, y, sg), z3.BVMulNoUnderflow(x, y))) if sg else z3.Not(z3.BVMulNoOverflow(x, y, False))
            return [v, self.fix(e)]
        n = self.width(t)
        if b in ("umin", "umax", "smin", "smax"):
            c = self.icmp({"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[b], t, args[0], args[1])
            return (args[0] if c else args[1]) if isinstance(c, int) else self.ite(c, args[0], args[1], t)
        if b == "bswap":
            bs = self.split(args[0], n // 8)
            return self.combine(bs[::-1])
        if b == "ctpop":
            if isinstance(args[0], int):
                return bin(args[0]).count("1")
            return self.fix(z3.Sum([z3.ZeroExt(n - 1, z3.Extract(i, i, args[0])) for i in range(n)]))
        if b in ("ctlz", "cttz"):
            x = args[0]
            if isinstance(x, int):
                if x == 0:
                    return n
                return n - x.bit_length() if b == "ctlz" else (x & -x).bit_length() - 1
            e = z3.BitVecVal(n, n)
            for i in (range(n) if b == "ctlz" else range(n - 1, -1, -1)):
                e = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(n - 1 - i if b == "ctlz" else i, n), e)
            return self.fix(e)
        if b in ("fshl", "fshr"):
            x, y, s = args
            s = self.concretize(st, s, 1, "funnel shift") % n
            k = s if b == "fshl" else n - s
            v = self.fix(z3.Concat(self.bv(x, n), self.bv(y, n)))
            if isinstance(v, int):
                return v >> (2 * n - n - k) & ((1 << n) - 1) if k else v >> n
            return self.fix(z3.Extract(2 * n - 1 - k, n - k, v))
        if nm.startswith(("llvm.usub.sat", "llvm.uadd.sat")):
            x, y = args
            v = self.binary(st, "sub" if b == "usub" else "add", t, x, y)
            c = self.icmp("ult", t, x, y) if b == "usub" else self.icmp("ult", t, v, x)
            lim = 0 if b == "usub" else (1 << n) - 1
            return (lim if c else v) if isinstance(c, int) else self.ite(c, lim, v, t)
        raise Event("unsupported", nm)

    # ------------------------------------------------------------ steps
    NOOP = re.compile(r"std2io5stdio6_e?print")

    def call(self, st, callee, args, t, dest, normal):
        f = st.frames[-1]
        a = self.val(st, callee, llir.PTR) if callee[0] != "g" else None
        nm = callee[1] if callee[0] == "g" else None
        if nm is None:
            a = self.concretize(st, a, 8, "called function")
            nm = self.faddr.get(a)
            if nm is None:
                raise Event("memory", "call of an invalid function pointer")
        argv = [self.val(st, o, ty) for ty, o in args]
        if PANICS.search(nm):
            raise Event("panic", self.panic_text(st, nm, argv))
        if self.NOOP.search(nm):
            return self.returned(st, f, dest, None, normal)
        if nm in self.mod.fdefs and nm not in self.hooks:
            fn = self.mod.function(nm)
            self.functions.add(nm)
            g = Frame(fn, dest, t, normal)
            for (pn, pt), v in zip(fn.params, argv):
                g.regs[pn] = v
            if len(st.frames) > 200:
                raise Event("limit", "recursion")
            st.frames.append(g)
            return
        r = self.external(st, nm, argv, t, dest, normal)
        self.returned(st, f, dest, r, normal)

    def returned(self, st, f, dest, v, normal):
        if dest is not None:
            f.regs[dest] = 0 if v is None else v
        f.ip += 1
        if normal is not None:
            self.jump(st, normal)

    def jump(self, st, b):
        f = st.frames[-1]
        prev = f.block
        code = f.fn.block(b)
        if self.merging:
            w = order(f.fn)
            pa, pb = w[prev], w[b]
            it = []
            for d, (k, head) in enumerate(pb):
                if head is None:
                    break
                if d < len(pa) and pa[:d + 1] == pb[:d + 1]:
                    if b == head:
                        it.append(f.iters[d] + 1)
                        break
                    it.append(f.iters[d])
                else:
                    it += [0] * sum(1 for _, h in pb[d:] if h is not None)
                    break
            it += [0] * (sum(1 for _, h in pb if h is not None) - len(it))
            f.iters = tuple(it)
        f.prev, f.block, f.ip = prev, b, 0
        vals = []
        for ins in code:
            if ins[0] != "phi":
                break
            vals.append((ins[1], self.val(st, ins[3][prev], ins[2])))
        for d, v in vals:
            f.regs[d] = v
        f.ip = len(vals)

    def step(self, st):
        """One instruction.  Returns the states which go on, or None for `st` itself."""
        f = st.frames[-1]
        ins = f.fn.block(f.block)[f.ip]
        op = ins[0]
        R = f.regs
        if op == "load":
            R[ins[1]] = self.load(st, self.val(st, ins[3], llir.PTR), ins[2])
        elif op == "gep":
            R[ins[1]] = self.gep(st, ins[2], ins[3])
        elif op == "bin":
            R[ins[1]] = self.binary(st, ins[2], ins[3], self.val(st, ins[4], ins[3]), self.val(st, ins[5], ins[3]))
        elif op == "cast":
            R[ins[1]] = self.cast(ins[2], ins[3], self.val(st, ins[4], ins[3]), ins[5])
        elif op == "icmp":
            R[ins[1]] = self.icmp(ins[2], ins[3], self.val(st, ins[4], ins[3]), self.val(st, ins[5], ins[3]))
        elif op == "store":
            self.store(st, self.val(st, ins[4], llir.PTR), self.val(st, ins[3], ins[2]), ins[2])
        elif op == "jmp":
            self.jump(st, ins[2])
            return None
        elif op == "br":
            c = self.val(st, ins[2], ("i", 1))
            if isinstance(c, int):
                self.jump(st, ins[3] if c else ins[4])
                return None
            outs = self.decide(st, c)
            self.branches += 1
            if len(outs) == 1:
                self.jump(st, ins[3] if outs[0] else ins[4])
                return None
            st_other = getattr(st, "other", None)
            s2 = st.fork()
            nc = z3.Not(c)
            st.pc.append(c)
            s2.pc.append(nc)
            self.forked([c, nc])
            for x, y in ((st, s2), (s2, st)):
                if st_other is not None and not self.holds(x, z3.BoolVal(True)):
                    x.model = st_other
            self.jump(st, ins[3])
            self.jump(s2, ins[4])
            return [st, s2]
        elif op == "switch":
            v = self.val(st, ins[3], ins[2])
            if isinstance(v, int):
                for k, b in ins[5]:
                    if k == v:
                        self.jump(st, b)
                        return None
                self.jump(st, ins[4])
                return None
            self.branches += 1
            n = self.width(ins[2])
            by = {}
            for k, b in ins[5]:
                by.setdefault(b, []).append(k)
            out = []
            conds = []
            for b, ks in by.items():
                c = z3.Or([v == k for k in ks])
                conds.append((b, c))
            conds.append((ins[4], z3.And([v != k for k, _ in ins[5]])))
            if self.merging:
                # Feasible or not is left to later: most of these states are merged again soon.
                self.forked([c for _, c in conds])
            for b, c in conds:
                if self.merging or self.check(st, c):
                    s = st.fork()
                    s.pc.append(c)
                    if self.merging:
                        s.unchecked = True
                    self.jump(s, b)
                    out.append(s)
            return out
        elif op == "select":
            c = self.val(st, ins[3], ("i", 1))
            a, b = self.val(st, ins[4], ins[2]), self.val(st, ins[5], ins[2])
            if isinstance(c, list):
                u = self.mod.resolve(ins[2])[2]
                R[ins[1]] = [(x if k else y) if isinstance(k, int) else self.ite(k, x, y, u) for k, x, y in zip(c, a, b)]
            else:
                R[ins[1]] = (a if c else b) if isinstance(c, int) else self.ite(c, a, b, ins[2])
        elif op == "call":
            self.call(st, ins[3], ins[4], ins[2], ins[1], None)
            return None
        elif op == "invoke":
            self.call(st, ins[3], ins[4], ins[2], ins[1], ins[5])
            return None
        elif op == "ret":
            v = self.val(st, ins[3], ins[2]) if ins[3] is not None else None
            for i in f.allocas:
                o = self.own(st, st.mem[i])
                o.alive = False
                del st.mem[i]
                st.mem[i] = o
            st.frames.pop()
            if not st.frames:
                return []
            self.returned(st, st.frames[-1], f.dest, v, f.normal)
            return None
        elif op == "alloca":
            n = self.val(st, ins[3], ("i", 64))
            size = self.mod.size(ins[2]) * n
            st.frames[-1].allocas.append(st.next)
            R[ins[1]] = self.new(st, size, [None] * size, "stack", f.fn.name)
        elif op == "extractvalue":
            v = self.val(st, ins[3], ins[2])
            for i in ins[4]:
                v = v[i]
            R[ins[1]] = v
        elif op == "insertvalue":
            v = self.copy(self.val(st, ins[3], ins[2]))
            x = self.val(st, ins[4], None)
            w = v
            for i in ins[5][:-1]:
                w = w[i]
            w[ins[5][-1]] = x
            R[ins[1]] = v
        elif op == "unreachable":
            raise Event("unreachable", "undefined behaviour: unreachable code is reached in %s" % f.fn.name)
        elif op in ("asm", "nop"):
            if ins[1] is not None:
                R[ins[1]] = 0
        elif op == "freeze":
            R[ins[1]] = self.val(st, ins[3], ins[2])
        elif op == "atomicrmw":
            p = self.val(st, ins[3], llir.PTR)
            old, v = self.load(st, p, ins[4]), self.val(st, ins[5], ins[4])
            new = v if ins[2] == "xchg" else self.binary(st, ins[2], ins[4], old, v)
            self.store(st, p, new, ins[4])
            R[ins[1]] = old
        elif op == "cmpxchg":
            p = self.val(st, ins[2], llir.PTR)
            old = self.load(st, p, ins[3])
            c = self.icmp("eq", ins[3], old, self.val(st, ins[4], ins[3]))
            if not isinstance(c, int):
                raise Event("unsupported", "symbolic cmpxchg")
            if c:
                self.store(st, p, self.val(st, ins[5], ins[3]), ins[3])
            R[ins[1]] = [old, c]
        elif op == "extractelement":
            i = self.val(st, ins[4], ("i", 64))
            if not isinstance(i, int):
                raise Event("unsupported", "symbolic vector index")
            R[ins[1]] = self.val(st, ins[3], ins[2])[i]
        elif op == "insertelement":
            v = list(self.val(st, ins[3], ins[2]))
            v[self.val(st, ins[5], ("i", 64))] = self.val(st, ins[4], None)
            R[ins[1]] = v
        elif op == "shufflevector":
            a = self.val(st, ins[3], ins[2]) + self.val(st, ins[4], ins[2])
            R[ins[1]] = [a[i] if i < len(a) else 0 for i in self.val(st, ins[6], ins[5])]
        else:
            raise Event("unsupported", "instruction %s" % (ins[2] if len(ins) > 2 else op))
        f.ip += 1
        return None

    def copy(self, v):
        return [self.copy(x) for x in v] if isinstance(v, list) else v

    # ------------------------------------------------------------ exploration
    def position(self, st):
        """Where a state is: states that are behind have smaller positions."""
        key = []
        for f in st.frames:
            w = order(f.fn)[f.block]
            for d, (k, head) in enumerate(w):
                key.append(k)
                if head is not None:
                    key.append(f.iters[d] if d < len(f.iters) else 0)
            key.append(f.ip)
        return tuple(key)

    def merge_value(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, list):
            if not isinstance(b, list) or len(a) != len(b):
                return None
            return [self.merge_value(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            return ("differ", a, b)
        if is_sym(a) and is_sym(b) and a.eq(b):
            return a
        s = a if is_sym(a) else b
        if not is_sym(s):
            return None
        if z3.is_bool(s):
            return self.fix(z3.If(c, self.bv(a, 1), self.bv(b, 1)))
        n = s.size()
        return z3.If(c, self.bv(a, n), self.bv(b, n))

    def signature(self, st):
        """States with different signatures are not merged: their structure, or concrete addresses and lengths, differ."""
        sig = [len(st.inputs)]
        for f in st.frames:
            sig.append(tuple(f.allocas))
            for r, t in self.live(f).items():
                x = f.regs.get(r)
                if type(x) is int:
                    t = self.mod.resolve(t) if t is not None else None
                    if t is None or t[0] == "p" or t[0] == "i" and t[1] == 64:
                        sig.append((r, x))
        for i, o in st.mem.items():
            if o.alive is not False and not o.const:
                for w in o.words:
                    u = o.bytes[w:w + 8]
                    if all(type(z) is int for z in u):
                        sig.append((i, w, bytes(u)))
        return hash(tuple(sig))

    def merge(self, a, b):
        """One state standing for both, or None."""
        if len(a.inputs) != len(b.inputs) or any(x is not y and (x[0] != y[0] or x[1] != y[1]) for x, y in zip(a.inputs, b.inputs)):
            return None
        if a.watch != b.watch or a.notes != b.notes or a.mallocs != b.mallocs or a.calls is not b.calls or a.playing != b.playing:
            return None
        k = 0
        while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]:
            k += 1
        conj = lambda l: l[0] if len(l) == 1 else z3.And(l) if l else z3.BoolVal(True)
        ca, cb = conj(a.pc[k:]), conj(b.pc[k:])
        if k == len(a.pc) or k == len(b.pc):
            return None
        c = ca
        frames = []
        for f, g in zip(a.frames, b.frames):
            h = f.copy()
            if f.allocas != g.allocas:
                return None
            regs = {}
            live = self.live(f)
            for r, x in f.regs.items():
                if r not in live or r not in g.regs:
                    continue
                y = g.regs[r]
                v = self.merge_value(c, x, y)
                if v is None or isinstance(v, tuple) or isinstance(v, list) and self.has_tuple(v):
                    t = self.mod.resolve(live[r]) if live[r] is not None else None
                    if t is None or t[0] == "p" or t[0] == "i" and t[1] == 64:
                        return None
                    v = self.merge_typed(c, x, y, t)
                    if v is None:
                        return None
                regs[r] = v
            h.regs = regs
            frames.append(h)
        mem = {}
        token = object()
        for i in set(a.mem) | set(b.mem):
            o, p = a.mem.get(i), b.mem.get(i)
            if o is None or p is None or o is p:
                mem[i] = o if p is None else p
                continue
            if o.kind != p.kind or o.const != p.const:
                return None
            if o.alive is False and p.alive is False:
                mem[i] = o
                continue
            for w in o.words | p.words:
                if o.alive is not False and p.alive is not False and w + 8 <= o.max and w + 8 <= p.max:
                    u, v = o.bytes[w:w + 8], p.bytes[w:w + 8]
                    if all(isinstance(z, int) for z in u + v) and u != v:
                        return None
            n = max(o.max, p.max)
            x, y = o.bytes + [None] * (n - o.max), p.bytes + [None] * (n - p.max)
            data = []
            for u, v in zip(x, y):
                if u is v or isinstance(u, int) and isinstance(v, int) and u == v:
                    data.append(u)
                elif o.alive is False:
                    data.append(v)
                elif p.alive is False:
                    data.append(u)
                elif is_sym(u) and is_sym(v) and u.eq(v):
                    data.append(u)
                else:
                    data.append(z3.If(c, self.byte(0 if u is None else u), self.byte(0 if v is None else v)))
            size = o.size
            if not (isinstance(o.size, int) and isinstance(p.size, int) and o.size == p.size):
                size = self.fix(z3.If(c, self.bv(o.size, 64), self.bv(p.size, 64)))
            q = Obj(o.base, size, n, data, o.kind, o.name, token, o.const)
            q.words = o.words | p.words
            if o.alive is p.alive:
                q.alive = o.alive
            else:
                q.alive = z3.simplify(z3.If(c, z3.BoolVal(o.alive) if isinstance(o.alive, bool) else o.alive,
                                            z3.BoolVal(p.alive) if isinstance(p.alive, bool) else p.alive))
                q.alive = True if z3.is_true(q.alive) else False if z3.is_false(q.alive) else q.alive
            mem[i] = q
        s = State.__new__(State)
        s.frames, s.mem, s.inputs, s.reached, s.token = frames, mem, a.inputs, a.reached | b.reached, token
        s.pc = a.pc[:k]
        x = self.forks.get(id(a.pc[k])) if len(a.pc) == k + 1 else None
        y = self.forks.get(id(b.pc[k])) if len(b.pc) == k + 1 else None
        if x and y and x[0] is y[0]:
            if x[2] + y[2] < x[1]:
                d = z3.Or(ca, cb)
                self.forks[id(d)] = (x[0], x[1], x[2] + y[2], d)
                s.pc.append(d)
        else:
            d = z3.simplify(z3.Or(ca, cb))
            if not z3.is_true(d):
                s.pc.append(d)
        s.model = None
        for t in (a, b):
            if t.model is not None:
                s.model = (len(s.pc) if t.model[0] == len(t.pc) else min(k, t.model[0]), t.model[1])
                if t.model[0] >= k:
                    break
        s.next, s.steps, s.notes, s.nvars, s.watch = max(a.next, b.next), max(a.steps, b.steps), a.notes, max(a.nvars, b.nvars), a.watch
        s.mallocs, s.calls, s.playing = a.mallocs, a.calls, a.playing
        a.token, b.token = object(), object()
        s.unchecked = getattr(a, "unchecked", False) and getattr(b, "unchecked", False)
        self.merges += 1
        return s

    def has_tuple(self, v):
        return any(isinstance(x, tuple) or x is None or isinstance(x, list) and self.has_tuple(x) for x in v)

    def merge_typed(self, c, a, b, t):
        if t is None:
            return None
        return self.ite(c, a, b, t)

    def live(self, f):
        """Registers which may be used after the current point of a frame, with their types."""
        return llir.live_at(f.fn, f.block, f.ip)

    def run(self, entry):
        """Explores every path of a function without arguments.  Returns a report."""
        self.gaddr, self.faddr, self.gobjs = {}, {}, {}
        self.started = time.time()
        self.merges = 0
        st = State()
        fn = self.mod.function(entry)
        self.functions.add(entry)
        st.frames.append(Frame(fn))
        rep = {"entry": entry, "paths": 0, "events": [], "limits": [], "reached": set(), "finished": 0}
        seen_limits = set()
        heap, waiting, count = [], {}, 0

        def push(s):
            nonlocal count
            count += 1
            if not self.merging:
                heap.append(s)
                return
            if hasattr(s, "tried"):
                del s.tried
            k = self.position(s), tuple((f.fn.name, f.block, f.ip) for f in s.frames)
            if k not in waiting:
                heapq.heappush(heap, k)
                waiting[k] = []
            waiting[k].append(s)

        def pop():
            if not self.merging:
                return heap.pop()
            k = heap[0]
            l = waiting[k]
            if len(l) > 1 and any(not hasattr(x, "tried") for x in l):
                groups = {}
                held = [x for x in l if hasattr(x, "held")]
                for x in l:
                    if not hasattr(x, "held"):
                        groups.setdefault(self.signature(x), []).append(x)
                l = held
                for g in groups.values():
                    while len(g) > 1:
                        # Balanced merging keeps the conditions shallow.
                        out = []
                        for a, b in zip(g[::2], g[1::2]):
                            m = self.merge(a, b)
                            out += [a, b] if m is None else [m]
                        if len(g) % 2:
                            out.append(g[-1])
                        if len(out) == len(g):
                            break
                        g = out
                    l += g
                if len(l) > 1:
                    # States which cannot be merged are worth a check.
                    l = [x for x in l if not getattr(x, "unchecked", False) or self.feasible(x)]
                for x in l:
                    x.tried = True
                waiting[k] = l
                if not l:
                    heapq.heappop(heap)
                    del waiting[k]
                    return None
            s = l.pop(0)
            if hasattr(s, "held"):
                del s.held
            if l:
                waiting[k] = l
            else:
                heapq.heappop(heap)
                del waiting[k]
            return s

        push(st)
        while heap:
            if time.time() - self.started > self.limits["seconds"] or rep["paths"] > self.limits["paths"]:
                rep["limits"].append("stopped with %d paths open after %d" % (len(heap), rep["paths"]))
                break
            st = pop()
            if st is None:
                continue
            try:
                depth, block, first = len(st.frames), st.frames[-1].block, True
                while True:
                    st.steps += 1
                    self.steps += 1
                    if st.steps > self.limits["steps"]:
                        raise Event("limit", "more than %d steps" % self.limits["steps"])
                    if self.steps % 4096 == 0 and time.time() - self.started > self.limits["seconds"]:
                        raise Event("limit", "time")
                    nxt = self.step(st)
                    if nxt is None:
                        if self.merging and heap:
                            f = st.frames[-1]
                            if len(st.frames) < depth or len(st.frames) == depth and f.block is not block and (order(f.fn), f.fn.npred.get(f.block, 0))[1] > 1:
                                push(st)
                                break
                            depth, block = len(st.frames), f.block
                        continue
                    if not nxt:
                        rep["paths"] += 1
                        if not st.frames:
                            rep["finished"] += 1
                            self.witness(rep, st)
                        rep["reached"] |= st.reached
                    for s in reversed(nxt):
                        push(s)
                    break
            except Infeasible:
                rep["reached"] |= st.reached
                rep["infeasible"] = rep.get("infeasible", 0) + 1
            except Forked as e:
                self.branches += 1
                for s in reversed(e.states):
                    # These differ only once they have gone on.
                    s.held = True
                    push(s)
            except Event as e:
                rep["paths"] += 1
                rep["reached"] |= st.reached
                if e.kind in ("limit", "unsupported"):
                    k = (e.kind, e.text)
                    if k not in seen_limits:
                        seen_limits.add(k)
                        rep["limits"].append("%s: %s in %s" % (e.kind, e.text, self.where(st)))
                    continue
                go_on = getattr(e, "go_on", None)
                self.record(rep, st, e)
                if go_on is not None:
                    s = st.fork()
                    s.pc.append(go_on)
                    push(s)
        rep["steps"], rep["branches"], rep["queries"], rep["solver_s"], rep["merges"], rep["reused"] = self.steps, self.branches, self.queries, self.solver_s, self.merges, self.reused
        rep["functions"], rep["cut"] = sorted(self.functions), self.cut
        return rep

    def record(self, rep, st, e):
        key = (e.kind, e.text)
        same = [x for x in rep["events"] if (x["kind"], x["text"]) == key]
        if len(same) >= 3:
            same[0]["count"] = same[0].get("count", 1) + 1
            return
        try:
            if not self.check(st, *([e.cond] if e.cond is not None else [])):
                return
        except Event:
            rep["limits"].append("the solver gave up on an event: %s" % e.text)
            return
        rep["events"].append({"kind": e.kind, "text": e.text, "where": self.where(st), "tape": self.tape(st, self.last_model, True), "tape0": self.tape(st, self.last_model), "reached": sorted(st.reached)})

    def tape(self, st, m, fill=False):
        """The inputs of a model; those it leaves open are zero, or with `fill` something else (abstracted results may hang on them)."""
        def value(k, i, x):
            v = m.eval(x, model_completion=not fill)
            return v.as_long() if z3.is_bv_value(v) else (k * 101 + i * 37 + 11) & 0xff or 1
        return [(kind, bytes(value(k, i, x) for i, x in enumerate(es))) for k, (kind, es, what) in enumerate(st.inputs)]

    def witness(self, rep, st):
        """Inputs of a path which ends well, one for each new set of labels reached (at most `witnesses`)."""
        key = sorted(st.reached)
        w = rep.setdefault("witnesses", [])
        if len(w) >= self.limits["witnesses"] or sum(1 for x in w if x["reached"] == key) >= 2:
            return
        try:
            if self.check(st):
                w.append({"reached": key, "tape": self.tape(st, self.last_model)})
        except Event:
            pass


if __name__ == "__main__":
    import sys
    mod = llir.Module(open(sys.argv[1]).read())
    for h in [a for a in sys.argv[2:] if a != '-m']:
        x = Executor(mod, {"seconds": 120})
        x.merging = "-m" in sys.argv
        t = time.time()
        r = x.run(h)
        print(h, "%.1fs" % (time.time() - t), {k: r[k] for k in r if k not in ("functions", "events")}, len(r["functions"]))
        for e in r["events"]:
            print("   ", e["kind"], e["text"], e["where"], [b.hex() for k, b in e["tape"]][:3])
