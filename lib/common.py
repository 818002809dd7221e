"""Shared helpers: paths, builds with the repository's own toolchain, evidence and verdict lines."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
WORK = os.environ.get("VP_WORK", os.path.join(VERIF, ".work"))
VENDOR = "/opt/vp/vendor"
OLD = "nightly-2019-01-15"
START = time.time()
BUDGET = float(os.environ.get("VP_BUDGET", "840"))


def left():
    return BUDGET - (time.time() - START)


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        t = "thorough"
    return t


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)


def old_env(target):
    """Environment of a build with the repository's toolchain and vendored dependencies, writing only below WORK."""
    home = os.path.join(WORK, "cargo-home")
    write(os.path.join(home, "config"),
          '[source.crates-io]\nreplace-with = "vendored-sources"\n\n[source.vendored-sources]\ndirectory = "%s"\n' % VENDOR)
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(PATH="/root/.cargo/bin:" + e.get("PATH", ""), RUSTUP_TOOLCHAIN=OLD, CARGO_HOME=home, CARGO_TARGET_DIR=target,
             CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
    return e


def cargo_build(crate_dir, target, extra=()):
    p = subprocess.run(["cargo", "build"] + list(extra), cwd=crate_dir, env=old_env(target),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout


def known_findings(pid):
    """label -> text, for findings recorded (not repaired) for this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) label=\[([^\]]*)\] (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def evidence(pid, level, coverage, **extra):
    d = {"property": pid, "tier": tier(), "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": level,
         "coverage": coverage, "wall_s": round(time.time() - START, 2)}
    d.update(extra)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)


def replay_path(pid, n, ext="txt"):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%d.%s" % (pid, n, ext))


def conclude(pid, reports):
    """Print the verdict lines, write the evidence and return the exit code."""
    known = known_findings(pid)
    seen, code, n = set(), 0, 0
    listed = []
    for r in reports:
        for v in r["violations"]:
            if v["label"] in known:
                if v["label"] not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (pid, known[v["label"]]))
                    seen.add(v["label"])
                continue
            path = replay_path(pid, n)
            n += 1
            with open(path, "w") as f:
                f.write(v["text"])
            listed.append({"label": v["label"], "scenario": v.get("scenario"), "replay": path})
            if n <= 5:
                print("%s: %s [%s]" % (v.get("scenario"), v["label"], v["how"]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            code = 1
    for r in reports:
        for note in r["notes"][:20]:
            print("INCONCLUSIVE: %s" % note)
        if r["error"]:
            print("ERROR: %s" % r["error"])
            if code == 0:
                code = 2
    if code != 2 or any(r.get("coverage") for r in reports):
        cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "engines": []}
        for r in reports:
            c = dict(r.get("coverage") or {})
            cov["states"] += c.get("states", 0)
            cov["transitions"] += c.get("transitions", 0)
            cov["traces_validated_against_impl"] += c.get("counterexamples_replayed", 0) + c.get("witness_paths_replayed_on_real_dalek", 0) + c.get("native_replays", 0)
            cov["samples"] += c.pop("samples", [])
            c["engine"] = r["engine"]
            c["inconclusive"] = r["notes"]
            cov["engines"].append(c)
        evidence(pid, "model_checking", cov, violations=len(listed), violation_list=listed, known_findings=sorted(seen), assumptions=ASSUMPTIONS.get(pid, ASSUMPTIONS["*"]))
    return code


ASSUMPTIONS = {"*": []}
