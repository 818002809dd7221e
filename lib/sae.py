"""Symbolic algebra execution: builds the harness against /repo, explores its decisions and asks the solver.

The code under test runs unchanged (the repository's own toolchain) against stand-ins of curve25519-dalek and merlin whose
scalars and discrete logarithms are nodes of an expression graph over variables of the prime field Z_l.  Every comparison of
values that differ as polynomials is a decision; the driver enumerates the decision tree depth first, keeps the branches the
solver finds feasible, and asks the solver about every path which ends in a failed check or a panic.
"""
import glob, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

import common as C
from common import VERIF, REPO, WORK

ELL = 2**252 + 27742317777372353535851937790883648493
SAE = os.path.join(WORK, "sae")
SRC = os.path.join(VERIF, "sae")
Z3 = shutil.which("z3-new") or "z3"


# ---------------------------------------------------------------- build
def prepare():
    os.makedirs(SAE, exist_ok=True)
    for d in ("symcore", "dalek", "merlin"):
        for f in glob.glob(os.path.join(SRC, d, "**", "*"), recursive=True):
            if os.path.isfile(f):
                C.write(os.path.join(SAE, d, os.path.relpath(f, os.path.join(SRC, d))),
                        open(f).read().replace("@VENDOR@", C.VENDOR))
    # The same stand-in for the older dalek of build-test/maths.
    for f in glob.glob(os.path.join(SAE, "dalek", "**", "*"), recursive=True):
        if os.path.isfile(f):
            C.write(os.path.join(SAE, "dalek19", os.path.relpath(f, os.path.join(SAE, "dalek"))),
                    open(f).read().replace('version = "0.21.99"', 'version = "0.19.99"'))
    # rand: thread_rng takes its bytes from the harness.
    dst = os.path.join(SAE, "rand")
    if not os.path.exists(os.path.join(dst, ".done")):
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(os.path.join(C.VENDOR, "rand-0.5.5"), dst, ignore=shutil.ignore_patterns("benches", "examples", "tests"))
        for f in (".cargo-checksum.json", "Cargo.toml.orig"):
            if os.path.exists(os.path.join(dst, f)):
                os.remove(os.path.join(dst, f))
        t = open(os.path.join(dst, "Cargo.toml")).read()
        t = t.replace('version = "0.5.5"', 'version = "0.5.99"', 1)
        C.write(os.path.join(dst, "Cargo.toml"), t)
        p = os.path.join(dst, "src/rngs/thread.rs")
        s = open(p).read()
        i, j = s.index("impl RngCore for ThreadRng"), s.index("impl CryptoRng for ThreadRng")
        s = s[:i] + '''
static mut HOOK: Option<fn(&mut [u8])> = None;
/// Where `thread_rng` takes its bytes from.
pub fn set_symbolic_entropy(f: fn(&mut [u8])) { unsafe { HOOK = Some(f) } }
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { ::rand_core::impls::next_u32_via_fill(self) }
    fn next_u64(&mut self) -> u64 { ::rand_core::impls::next_u64_via_fill(self) }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        match unsafe { HOOK } { Some(f) => f(dest), None => unsafe { (*self.rng.get()).fill_bytes(dest) } }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { Ok(self.fill_bytes(dest)) }
}

''' + s[j:]
        C.write(p, s)
        p = os.path.join(dst, "src/lib.rs")
        s = open(p).read()
        s = s.replace("pub use rngs::thread::thread_rng;", "pub use rngs::thread::thread_rng;\n#[cfg(feature=\"std\")] pub use rngs::thread::set_symbolic_entropy;", 1)
        C.write(p, s)
        C.write(os.path.join(dst, ".done"), "")


def build(mode, name="harness"):
    """mode: sym or conc.  Returns (path of the binary or None, log)."""
    prepare()
    src = os.path.join(SRC, name)
    d = os.path.join(SAE, "%s-%s" % (name, mode))
    patch = ['rand = { path = "%s/rand" }' % SAE, 'merlin = { path = "%s/merlin" }' % SAE]
    if mode == "sym":
        patch.append('curve25519-dalek = { path = "%s/%s" }' % (SAE, "dalek19" if name == "maths" else "dalek"))
    for f in glob.glob(os.path.join(src, "src", "*.rs")):
        C.write(os.path.join(d, "src", os.path.basename(f)), open(f).read())
    t = open(os.path.join(src, "Cargo.toml.in")).read()
    C.write(os.path.join(d, "Cargo.toml"), t.replace("@REPO@", REPO).replace("@SAE@", SAE).replace("@PATCH@", "\n".join(patch)))
    target = os.path.join(SAE, "target-%s-%s" % (name, mode))
    lock = os.path.join(d, "Cargo.lock")
    if os.path.exists(lock):        # this cargo does not reuse a lock file with a patched package
        os.remove(lock)
    ok, log = C.cargo_build(d, target, ["--features", "conc"] if mode == "conc" else [])
    return (os.path.join(target, "debug", name) if ok else None), log


# ---------------------------------------------------------------- paths
def run_path(binary, name, prefix):
    p = subprocess.run([binary, name, "".join("T" if x else "F" for x in prefix)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
    i = p.stdout.rfind("@@TRACE ")
    if i < 0:
        return {"status": "UNENCODABLE", "detail": "no trace: exit %d %s" % (p.returncode, p.stderr[-300:])}
    return json.loads(p.stdout[i + 8:].split("\n")[0])


# ---------------------------------------------------------------- solver
class Query:
    """SMT-LIB text for (part of) a trace."""

    def __init__(self, t):
        self.t = t
        self.used_nodes = set()
        self.used_vars = set()

    def val(self, v):
        if isinstance(v, str):
            return "(as ff%d F)" % int(v, 16)
        self.need(v)
        return "n%d" % v

    def need(self, n):
        stack = [n]
        while stack:
            n = stack.pop()
            if n in self.used_nodes:
                continue
            self.used_nodes.add(n)
            e = self.t["nodes"][n]
            if e[0] == "v":
                self.used_vars.add(e[1])
            else:
                stack += [x for x in e[1:] if not isinstance(x, str)]

    def var_node(self, v):
        self.used_vars.add(v)
        return "v%d" % v

    def eq(self, a, b):
        return "(= %s %s)" % (self.val(a), self.val(b))

    def header(self):
        out = ["(define-sort F () (_ FiniteField %d))" % ELL]
        out += ["(declare-const v%d F)" % v for v in sorted(self.used_vars)]
        for n in sorted(self.used_nodes):
            e = self.t["nodes"][n]
            f = lambda x: "(as ff%d F)" % int(x, 16) if isinstance(x, str) else "n%d" % x
            if e[0] == "v":
                b = "v%d" % e[1]
            elif e[0] == "+":
                b = "(ff.add %s %s)" % (f(e[1]), f(e[2]))
            elif e[0] == "-":
                b = "(ff.add %s (ff.neg %s))" % (f(e[1]), f(e[2]))
            elif e[0] == "*":
                b = "(ff.mul %s %s)" % (f(e[1]), f(e[2]))
            else:
                b = "(ff.neg %s)" % f(e[1])
            out.append("(define-fun n%d () F %s)" % (n, b))
        return out


def matching(a, b):
    """Pairs of nodes to compare if two oracle inputs have the same form, else None."""
    if len(a) != len(b):
        return None
    pairs = []
    for x, y in zip(a, b):
        if len(x) != len(y):
            return None
        for s, u in zip(x, y):
            if s[0] != u[0]:
                return None
            if s[0] == "r":
                if s[1] != u[1]:
                    return None
            elif s[1] != u[1]:
                pairs.append((s[1], u[1]))
    return pairs


def constraints(t, q, decisions, relaxed=False):
    """Assertions for the path up to and including `decisions`."""
    out = []
    for d in decisions:
        e = q.eq(d[0], d[1])
        out.append(e if d[2] else "(not %s)" % e)
    body = list(out)
    if relaxed:
        return body
    zero = "(as ff0 F)"
    for v, p in t["inverses"]:
        x, pv = q.var_node(v), q.val(p)
        body.append("(or (= (ff.mul %s %s) (as ff1 F)) (and (= %s %s) (= %s %s)))" % (x, pv, pv, zero, x, zero))
    ros = t["ros"]
    for i in range(len(ros)):
        for j in range(i):
            if ros[i][1] != ros[j][1]:
                continue
            m = matching(ros[i][2], ros[j][2])
            a, b = q.var_node(ros[i][0]), q.var_node(ros[j][0])
            if m is None:
                if t.get("collision_free"):
                    body.append("(not (= %s %s))" % (a, b))
                continue
            ins = ["(= n%d n%d)" % p for p in m]
            for p in m:
                q.need(p[0]), q.need(p[1])
            cond = "(and true %s)" % " ".join(ins)
            body.append("(=> %s (= %s %s))" % (cond, a, b))
            if t.get("collision_free"):
                body.append("(=> (= %s %s) %s)" % (a, b, cond))
    if t.get("collision_free"):
        kinds = {}
        for r in ros:
            kinds.setdefault(r[1], []).append(r[0])
        ks = sorted(kinds)
        for x in range(len(ks)):
            for y in range(x):
                for a in kinds[ks[x]]:
                    for b in kinds[ks[y]]:
                        body.append("(not (= %s %s))" % (q.var_node(a), q.var_node(b)))
        draws = [i for i, v in enumerate(t["vars"]) if v[0] == "rng"]
        for x in range(len(draws)):
            for y in range(x):
                body.append("(not (= %s %s))" % (q.var_node(draws[x]), q.var_node(draws[y])))
            for r in ros:
                body.append("(not (= %s %s))" % (q.var_node(draws[x]), q.var_node(r[0])))
    for v in t["nonzero"]:
        body.append("(not (= %s %s))" % (q.var_node(v), zero))
    # points with unknown discrete logarithm: neither the identity nor the basepoint
    for i, v in enumerate(t["vars"]):
        if v[0] == "pt":
            x = q.var_node(i)
            body += ["(not (= %s %s))" % (x, zero), "(not (= %s (as ff1 F)))" % x]
    return body


class Solver:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.verdicts = {}
        self.slowest = 0.0
        self.deadline = None

    def ask(self, text, timeout):
        t0 = time.time()
        if self.deadline:
            timeout = min(timeout, self.deadline + 15 - t0)
            if timeout < 1:
                return "unknown", "out of time"
        try:
            p = subprocess.run([Z3, "-T:%d" % max(1, int(timeout)), "-in"], input=text, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout + 20)
            out = p.stdout
        except subprocess.TimeoutExpired:
            out = "timeout"
        dt = time.time() - t0
        self.queries += 1
        self.time += dt
        self.slowest = max(self.slowest, dt)
        v = out.strip().split("\n")[0].strip()
        if v not in ("sat", "unsat"):
            v = "unknown"
        self.verdicts[v] = self.verdicts.get(v, 0) + 1
        return v, out


def feasible(solver, t, decisions, timeout, model=False, apart=False):
    """sat, unsat or unknown.  A query which is slow is first tried without the constraints on oracles and inverses:
    what is impossible without them is impossible."""
    def query(relaxed):
        q = Query(t)
        body = constraints(t, q, decisions, relaxed)
        if model and not relaxed:
            for v in t["events"]:
                q.var_node(v)
            if apart:
                xs = [q.var_node(v) for v in t["events"]]
                body += ["(not (= %s (as ff%d F)))" % (x, k) for x in xs for k in (0, 1)]
                body += ["(not (= %s %s))" % (xs[i], xs[j]) for i in range(len(xs)) for j in range(i)]
        text = q.header() + ["(assert %s)" % b for b in body] + ["(check-sat)"]
        if model and not relaxed:
            text.append("(get-value (%s))" % " ".join("v%d" % v for v in sorted(q.used_vars)))
        return "\n".join(text)
    v, out = solver.ask(query(False), min(4, timeout))
    if v == "unknown":
        v, out = solver.ask(query(True), min(20, timeout))
        if v != "unsat":
            v, out = solver.ask(query(False), timeout)
    if not model:
        return v
    values = {int(a): int(b) % ELL for a, b in re.findall(r"\(v(\d+)\s+\(?(?:as )?ff(\d+)", out)}
    return v, values, out


def generic(t, rng=random.Random(1)):
    """Random values of the variables which take this path, if random values do."""
    inv = {v: p for v, p in t["inverses"]}
    m, val = {}, []
    f = lambda x: int(x, 16) if isinstance(x, str) else val[x]
    for e in t["nodes"]:
        if e[0] == "v":
            v = e[1]
            if v not in m:
                m[v] = pow(f(inv[v]), ELL - 2, ELL) if v in inv else rng.randrange(2, ELL)
            val.append(m[v])
        elif e[0] == "+":
            val.append((f(e[1]) + f(e[2])) % ELL)
        elif e[0] == "-":
            val.append((f(e[1]) - f(e[2])) % ELL)
        elif e[0] == "*":
            val.append(f(e[1]) * f(e[2]) % ELL)
        else:
            val.append(-f(e[1]) % ELL)
    for v in t["events"]:
        m.setdefault(v, rng.randrange(2, ELL))
    if any((f(d[0]) == f(d[1])) != d[2] for d in t["decisions"]):
        return None
    return m


def identities(solver, t, timeout):
    """One query: every pair identified by normal form is equal for all values."""
    ids = [d for d in t.get("identities", []) if d[0] != d[1]]
    if not ids:
        return "unsat"
    q = Query(t)
    text = ["(assert (or false %s))" % " ".join("(not %s)" % q.eq(a, b) for a, b in ids)]
    v, _ = solver.ask("\n".join(q.header() + text + ["(check-sat)"]), timeout)
    return v


def others(solver, t):
    """Further models of a path, with the variables different from each other and from zero.  (The first model may be degenerate: then
    what is different as a term, say an encoding, can be the same as a value.)"""
    g = generic(t)
    if g:
        yield g
    v, m, out = feasible(solver, t, t["decisions"], 20, model=True, apart=True)
    if v == "sat":
        yield m


# ---------------------------------------------------------------- unusual models of passing paths
def evaluate(t, m):
    """The values of all nodes; inverses are computed (and put into m)."""
    inv, val = {v: p for v, p in t["inverses"]}, []
    f = lambda x: int(x, 16) if isinstance(x, str) else val[x]
    for e in t["nodes"]:
        k = e[0]
        if k == "v":
            if e[1] in inv:
                m[e[1]] = pow(f(inv[e[1]]), ELL - 2, ELL)
            val.append(m[e[1]])
        elif k == "+":
            val.append((f(e[1]) + f(e[2])) % ELL)
        elif k == "-":
            val.append((f(e[1]) - f(e[2])) % ELL)
        elif k == "*":
            val.append(f(e[1]) * f(e[2]) % ELL)
        else:
            val.append(-f(e[1]) % ELL)
    return val


def holds(t, m, val, except_for=None):
    """Whether a model is one of this path (except for one decision and what depends on it), and no two oracle inputs, draws or points coincide which are different as terms."""
    f = lambda x: int(x, 16) if isinstance(x, str) else val[x]
    if any((f(d[0]) == f(d[1])) != d[2] for d in t["decisions"] if not except_for or d[3] == "a") or any(m[v] == 0 for v in t["nonzero"]):
        return False
    kinds = [v[0] for v in t["vars"]]
    if any(m[i] in (0, 1) for i in range(len(kinds)) if kinds[i] == "pt" and i in m):
        return False
    free = [m[i] for i in range(len(kinds)) if kinds[i] in ("rng", "pt") and i in m] + [m[r[0]] for r in t["ros"] if r[0] in m]
    if len(set(free)) < len(free):
        return False
    ros = t["ros"]
    for i in range(len(ros)):
        for j in range(i):
            if ros[i][1] == ros[j][1]:
                p = matching(ros[i][2], ros[j][2])
                if p is not None and all(val[a] == val[b] for a, b in p):
                    return False
    return True


PATTERNS = [lambda r: r.getrandbits(62), lambda r: r.getrandbits(126), lambda r: r.getrandbits(124) << 128, lambda r: r.getrandbits(56) << 192,
            lambda r: r.getrandbits(244), lambda r: ELL - 1 - r.getrandbits(62),
            lambda r: int.from_bytes(bytes(r.choice((0, 1, 0x7f, 0x80, 0xff)) for _ in range(31)), "little"),
            lambda r: (0x10 << 248) | r.getrandbits(120), lambda r: r.randrange(2, ELL)]
NEAR = [1 << (8 * j) for j in (0, 31, 16, 8, 24, 1, 15, 30, 7, 23)] + [ELL - 2]


def solve_for(t, m, a, b, delta, pinned, rng):
    """Change one variable so that a - b = delta, if the difference is linear in one."""
    f = lambda x, val: int(x, 16) if isinstance(x, str) else val[x]
    inv = {v for v, _ in t["inverses"]}
    seen, cone, stack = set(), [], [x for x in (a, b) if not isinstance(x, str)]
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        e = t["nodes"][n]
        if e[0] == "v":
            cone.append(e[1])
        else:
            stack += [x for x in e[1:] if not isinstance(x, str)]
    cone = [v for v in cone if v not in pinned and v not in inv]
    rng.shuffle(cone)
    for v in cone[:6]:
        y = []
        for k in range(3):
            m2 = dict(m)
            m2[v] = (m[v] + k) % ELL
            val = evaluate(t, m2)
            y.append((f(a, val) - f(b, val)) % ELL)
        c = (y[1] - y[0]) % ELL
        if c and (y[2] - y[1]) % ELL == c:
            m2 = dict(m)
            m2[v] = (m[v] + (delta - y[0]) * pow(c, ELL - 2, ELL)) % ELL
            return m2, v
    return None, None


def variants(t, rng, limit):
    """Models of a passing path with unusual values: scalars of special forms; and values which differ in one byte only, where the path
    has them differ or be equal."""
    if len(t["nodes"]) > 3000:
        return
    used = sorted({e[1] for e in t["nodes"] if e[0] == "v"} | set(t["events"]))
    true = [d for d in t["decisions"] if d[2]]
    plans = [(0, p, None, None) for p in PATTERNS]
    for d in t["decisions"]:
        if d[3] != "a":
            plans += [(1 + i // 5, PATTERNS[-1], d, x) for i, x in enumerate(NEAR)]
    kinds = {v: t["vars"][v][0] for v in used}
    ros, free = [r[0] for r in t["ros"]], [v for v in used if kinds[v] == "in"]
    few = lambda pairs: pairs if len(pairs) <= 400 else rng.sample(pairs, 400)
    near = lambda vs: vs if len(vs) <= 100 else rng.sample(vs, 100)
    plans += [(2 + i // 5, PATTERNS[-1], p, x) for p in few([(a, b) for a in near(ros) for b in near(free)]) for i, x in enumerate(NEAR)]
    plans += [(4 + i // 5, PATTERNS[-1], p, x) for p in few([(a, b) for a in near(free) for b in near(free) if a < b]) for i, x in enumerate(NEAR)]
    rng.shuffle(plans)
    plans.sort(key=lambda p: p[0])
    for _, pattern, d, delta in plans[:limit]:
        m = {v: pattern(rng) % ELL for v in used}
        if d and len(d) == 2:
            m[d[0]] = (m[d[1]] + delta) % ELL
        pinned, d = (set(d), None) if d and len(d) == 2 else (set(), d)
        for e in [x for x in true if x is not d] + ([d] if d else []):
            val = evaluate(t, m)
            f = lambda x: int(x, 16) if isinstance(x, str) else val[x]
            want = delta if e is d else 0
            if (f(e[0]) - f(e[1]) - want) % ELL == 0:
                continue
            m2, v = solve_for(t, m, e[0], e[1], want, pinned, rng)
            if m2 is None:
                break
            m = m2
            pinned.add(v)
        else:
            # Claims hold on every path: with a decision reversed, on another one.
            if holds(t, m, evaluate(t, m), except_for=d if d and d[2] else None):
                yield m


# ---------------------------------------------------------------- exploration
class Result:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.reached = set()
        self.failures = []
        self.passing = []
        self.unencodable = False
        self.unknown = []
        self.nodes = 0
        self.decisions = 0
        self.identities = 0
        self.validated = 0
        self.seconds = 0.0


class Found:
    """When the first counterexample of this run was found."""
    first = None


def explore(binary, name, solver, timeout=60, max_paths=400, deadline=None, want_models=1):
    """All feasible paths of scenario `name`; with counterexamples at hand, only a few minutes more of them."""
    r = Result()
    solver.deadline = deadline
    t0 = time.time()
    stack = [[]]
    seen = {}
    while stack:
        enough = sum(f[0] != "witness" for f in r.failures) >= 3 or (Found.first and time.time() > Found.first + 100)
        if enough or r.paths >= max_paths or (deadline and time.time() > deadline):
            r.unknown.append("paths left unexplored: %d" % len(stack))
            break
        prefix = stack.pop()
        t = run_path(binary, name, prefix)
        if "nodes" not in t:
            r.unencodable = True
            r.unknown.append(t["detail"])
            continue
        # Walk the decisions; at each new one keep only feasible sides.
        free = [i for i, d in enumerate(t["decisions"]) if d[3] == "d"]
        cut = None
        for k, i in enumerate(free):
            if k < len(prefix):
                continue
            if (deadline and time.time() > deadline) or (Found.first and time.time() > Found.first + 100):
                cut = "out of time"
                r.unknown.append("out of time")
                break
            d = t["decisions"][i]
            here = t["decisions"][:i]
            yes = feasible(solver, t, here + [[d[0], d[1], True, "d"]], timeout)
            no = feasible(solver, t, here + [[d[0], d[1], False, "d"]], timeout)
            if "unknown" in (yes, no):
                r.unknown.append("decision undecided within %ds" % timeout)
            base = [t["decisions"][j][2] for j in free[:k]]
            if yes == "unsat" and no == "unsat":
                cut = "infeasible"
                break
            if yes == "unsat":          # the run took True
                stack.append(base + [False])
                cut = "wrong side"
                break
            if no != "unsat":
                stack.append(base + [False])
        r.nodes = max(r.nodes, len(t["nodes"]))
        if cut in ("wrong side", "out of time"):
            continue
        r.paths += 1
        r.decisions += len(t["decisions"])
        if cut == "infeasible" or t["status"] == "INFEASIBLE":
            r.infeasible += 1
            continue
        if t["status"] == "UNENCODABLE":
            r.unencodable = True
            r.unknown.append(t["detail"])
            continue
        if t["status"] == "OK":
            v = identities(solver, t, timeout)
            r.identities += len(t["identities"])
            if v != "unsat":
                r.unknown.append("identities not confirmed (%s)" % v)
            # Vacuity: the path itself must be possible.
            forced = [d for d in t["decisions"] if d[3] == "a"]
            if forced or want_models > 0:
                v, m, out = feasible(solver, t, t["decisions"], timeout, model=True)
                if v == "unsat":
                    r.infeasible += 1
                    continue
                if v == "unknown":
                    r.unknown.append("possibility of a path undecided")
                if v == "sat" and want_models > 0:
                    want_models -= 1
                    g = generic(t)
                    if g:
                        r.failures.append(("witness", t, g))
                    if not t["identical"]:      # in a replay, values which happen to be equal count as identical
                        r.failures.append(("witness", t, m))
            r.reached.update(t["reached"])
            if len(r.passing) < 60 and len(t["nodes"]) <= 3000 and len(t["events"]) <= 300:
                r.passing.append(t)
            for n in t["notes"]:
                r.unknown.append("note: " + n)
            continue
        # FAIL or PANIC: possible?
        v, m, out = feasible(solver, t, t["decisions"], timeout * 2, model=True)
        if v == "unsat":
            r.infeasible += 1
            r.reached.update(x for x in t["reached"])
        elif v == "unknown":
            r.unknown.append("%s undecided: %s" % (t["status"], t["detail"]))
        else:
            r.failures.append((t["status"], t, m))
            Found.first = Found.first or time.time()
    r.seconds = time.time() - t0
    return r


def tape(t, m):
    """Values of the events in order, as 32-byte little-endian hexadecimal lines."""
    return "\n".join((m.get(v, 0)).to_bytes(32, "little").hex() for v in t["events"]) + "\n"


def replay(conc, name, path):
    p = subprocess.run([conc, name, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
    i = p.stdout.rfind("@@TRACE ")
    if i < 0:
        return {"status": "CRASH", "detail": "exit %d" % p.returncode}
    return json.loads(p.stdout[i + 8:].split("\n")[0])
