"""Properties decided by symbolic execution of the compiled crates' intermediate representation."""
import json, os, re, shutil, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor

import common as C
import lse_build

# Harness prefixes, and whether what can go wrong in memory (or a panic) there breaks the property.
PROPERTIES = {
    "C02": (["r_"], True),
    "C16": (["d_", "g_", "q_", "b_"], False),
    "C17": (["d_", "g_", "q_", "b_"], True),
    "C18": (["n_round", "n_forms", "n_injective", "n_bytes"], True),
    "C19": (["n_"], True),
    "C20": (["f_"], True),
    "C21": (["z_"], True),
    "C22": (["p_"], True),
    "C27": (["a_"], True),
    "C29": (["j_"], True),
    "C31": (["k_"], True),
}
# The protocol with honest inputs, on the real crates.
FLOW = {"C20": "h_flow", "C29": "h_js", "C31": "h_header"}
SKIP = {"C19": ["n_injective", "n_round"]}
MERGING = ("n_any", "n_few", "n_one", "n_weird", "n_round")
SLOW = ["n_few", "n_one", "n_any", "f_obtain_finish", "f_verify", "n_injective", "n_text", "n_weird", "j_obtain_finish", "j_issue", "j_verify"]
BASELINE = os.path.join(C.VERIF, "lib", "lse_reached.json")
LABEL = re.compile(r"^(C\d\d): ")


def limits(name):
    return {"seconds": 400 if C.tier() == "quick" else 700, "draws": 3 if name.endswith(("parameters_create", "f_null")) else 1000}


def explore(ll, names, report):
    """Runs the harnesses; report(r) is called with each result as it comes."""
    names = sorted(names, key=lambda n: min([i for i, p in enumerate(SLOW) if n.startswith(p)] or [99]))
    jobs = [{"name": n, "limits": limits(n), "merging": n.startswith(MERGING)} for n in names]
    e = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.Popen(["python3-vt", os.path.join(os.path.dirname(os.path.abspath(__file__)), "lse_run.py"), ll, "8", "0"],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, start_new_session=True)
    p.stdin.write(json.dumps(jobs))
    p.stdin.close()
    import threading
    stop = threading.Timer(max(20, C.left() - 40), lambda: os.killpg(p.pid, signal.SIGKILL))
    stop.start()
    try:
        for line in p.stdout:
            report(json.loads(line))
        err = p.stderr.read()
    finally:
        stop.cancel()
        p.wait()
    return err


def replay(binary, name, tape, path):
    """Returns (status, label, reached): status ok, fail, crash, assumption, other."""
    with open(path, "wb") as f:
        for kind, b in tape:
            if kind in (0, 3):
                b = bytes.fromhex(b)
                f.write(bytes([kind]) + len(b).to_bytes(4, "little") + b)
    try:
        p = subprocess.run([binary, name, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        return "other", "no answer within 60 s", []
    out = p.stdout.decode("utf-8", "replace")
    reached = sorted(set(re.findall(r"^reach:(.*)$", out, re.M)))
    fail = re.findall(r"^fail:(.*)$", out, re.M)
    if p.returncode == 101 and fail:
        return "fail", fail[-1], reached
    if p.returncode < 0 or p.returncode == 102:
        err = p.stderr.decode("utf-8", "replace").strip().split("\n")
        panic = [x for x in err if "panicked at" in x]
        how = "huge allocation" if p.returncode == 102 else signal.Signals(-p.returncode).name
        return "crash", "%s%s" % (how, ": " + panic[0] if panic else ""), reached
    if p.returncode == 0:
        return "ok", (re.findall(r"^outcome:(.*)$", out, re.M) or [""])[-1], reached
    return ("assumption" if p.returncode == 77 else "other"), "exit %d" % p.returncode, reached


def check(pid):
    prefixes, safety = PROPERTIES[pid]
    rep = {"engine": "symbolic execution of LLVM IR", "violations": [], "notes": [], "error": None}
    lse_build.prepare()
    builder = ThreadPoolExecutor(1)
    later = builder.submit(lse_build.build_native)
    ll, log = lse_build.build_ir()
    if not ll:
        rep["error"] = "the harness does not build:\n" + log[-4000:]
        return rep
    names = re.findall(r"^define void @([a-z]_\w+)\(\)", open(ll).read(), re.M)
    names = [n for n in names if n.startswith(tuple(prefixes)) and not n.startswith(tuple(SKIP.get(pid, [])) or "-")]
    if C.tier() == "quick":
        names = [n for n in names if not n.endswith("_deep")]
    native, native_log = later.result()
    if not native:
        rep["error"] = "the replay harness does not build:\n" + native_log[-4000:]
        return rep
    expected = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    scratch = os.path.join(C.WORK, "lse-tapes", pid)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    done, functions = {}, set()
    tot = dict(paths=0, branches=0, queries=0, solver_s=0.0, steps=0, merges=0, cut=0)
    counts = dict(replayed=0, agreed=0, diverged=0, n=0)
    samples, flow, diverged = [], [], []

    def matters(status, label):
        m = LABEL.match(label)
        if status == "fail":
            return bool(m) and m.group(1) == pid
        return status == "crash" and safety

    def violation(name, label, how, r, tape, got):
        text = "harness: %s\nclaim: %s\nhow: %s\nsymbolic: %s in %s\nreplay on the real crates: %s\n\n" % (name, label, how, r.get("text"), r.get("where"), got)
        text += "replay: build with lse_build.build_native() and run: lse_replay %s <tape>\ntape (kind, length as 4 bytes, bytes; in order):\n" % name
        text += "\n".join("%d %s" % (k, b) for k, b in tape if k in (0, 3))
        rep["violations"].append({"label": label, "scenario": name, "how": how, "text": text})

    def report(r):
        name = r["entry"]
        done[name] = r
        if r.get("error"):
            rep["notes"].append("%s: %s" % (name, r["error"].strip().split("\n")[-1]))
            return
        for k in tot:
            tot[k] += r.get(k, 0)
        functions.update(r["functions"])
        for l in r["limits"]:
            rep["notes"].append("%s: %s" % (name, l))
        hit = False
        for e in r["events"]:
            status = "fail" if e["kind"] == "fail" else "crash"
            if not matters(status, e["text"]):
                continue
            hit = True
            counts["n"] += 1
            tape = e["tape"]
            got = replay(native, name, tape, os.path.join(scratch, "%s-%d.tape" % (name, counts["n"])))
            if not matters(got[0], got[1]):
                again = replay(native, name, e["tape0"], os.path.join(scratch, "%s-%d-0.tape" % (name, counts["n"])))
                if matters(again[0], again[1]):
                    tape, got = e["tape0"], again
            how = None
            if matters(got[0], got[1]):
                how = "counterexample replayed on the real crates: %s" % got[1]
                counts["replayed"] += 1
            elif pid in FLOW:
                # Its path may need a proof which verifies: the honest protocol has them.
                if not flow:
                    flow.append(replay(native, FLOW[pid], [], os.path.join(scratch, "flow.tape")))
                if flow[0][0] in ("fail", "crash"):
                    how, got = "counterexample; confirmed on the real crates by an honest run of the protocol: %s" % flow[0][1], flow[0]
                    counts["replayed"] += 1
            label = got[1] if got[0] == "fail" else e["text"]
            if how:
                violation(name, label, how, e, tape, got)
            else:
                rep["notes"].append("%s: counterexample not confirmed on the real crates: %s %s / %s" % (name, e["kind"], e["text"], got[:2]))
        for w in r.get("witnesses", []):
            counts["n"] += 1
            path = os.path.join(scratch, "%s-%d.tape" % (name, counts["n"]))
            got = replay(native, name, w["tape"], path)
            if matters(got[0], got[1]):
                hit = True
                violation(name, got[1], "a solver model of a passing path fails on the real crates", {}, w["tape"], got)
            elif got[0] == "ok" and got[2] == w["reached"]:
                counts["agreed"] += 1
                if len(samples) < 4:
                    samples.append({"harness": name, "reached": w["reached"], "input": [b[:96] for k, b in w["tape"] if k == 0][:3]})
            else:
                counts["diverged"] += 1
                diverged.append([name, got[0], got[1], sorted(set(got[2]) ^ set(w["reached"]))])
            os.remove(path)
        lost = sorted(set(expected.get(name, [])) - set(r["reached"]))
        if lost and not hit:
            rep["notes"].append("%s: not reached any more: %s" % (name, "; ".join(lost)))

    err = explore(ll, names, report)
    missing = sorted(set(names) - set(done))
    if missing:
        rep["notes"].append("no answer in time: %s %s" % (", ".join(missing), err[-300:]))
    gone = sorted(n for n in expected if n.startswith(tuple(prefixes)) and not n.endswith("_deep") and n not in names and not n.startswith(tuple(SKIP.get(pid, [])) or "-"))
    if gone:
        rep["notes"].append("harnesses missing: %s" % gone)
    real = sorted(f for f in functions if re.search(r"aeonflux|signal_credential|credential1c|4wasm2js|buildtest|issuer_|user_|roster_|system_param", f))
    rep["per"] = done
    rep["coverage"] = {
        "harnesses": {n: {"paths": r.get("paths"), "queries": r.get("queries"), "solver_s": round(r.get("solver_s", 0), 2), "wall_s": r.get("wall"), "merges": r.get("merges")}
                      for n, r in sorted(done.items())},
        "functions_encoded": len(functions), "functions_of_the_repository": real[:200], "instructions_executed": tot["steps"],
        "states": tot["paths"], "transitions": tot["branches"], "states_merged": tot["merges"], "paths_cut_at_a_bound": tot["cut"],
        "solver": "z3 (bit-vectors)", "queries": tot["queries"], "solver_seconds": round(tot["solver_s"], 2),
        "counterexamples_replayed": counts["replayed"], "native_replays": counts["agreed"], "passing_paths_replayed_and_agreeing": counts["agreed"],
        "passing_paths_which_differ_on_the_real_crates": counts["diverged"], "differences": diverged[:20], "samples": samples,
    }
    return rep


def record_baseline():
    """Regenerate the list of what each harness reaches (run by hand on the unchanged tree)."""
    ll, log = lse_build.build_ir()
    names = re.findall(r"^define void @([a-z]_\w+)\(\)", open(ll).read(), re.M)
    out = {}
    explore(ll, names, lambda r: out.__setitem__(r["entry"], r.get("reached", [])))
    with open(BASELINE, "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")
