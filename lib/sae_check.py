"""Properties decided by symbolic algebra execution."""
import json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

import common as C
import sae

PROPERTIES = {
    "C01": ["aeonflux::issuer::Issuer::{create,issue,verify}", "aeonflux::user::User::{obtain,obtain_finish,show}", "issuance_revealed, valid_credential: Proof::{create,verify}"],
    "C02": ["signal_credential::{issuer,user,phone_number}: create, issue, obtain_finish, show, verify, verify_roster_membership, open"],
    "C03": ["aeonflux::issuer::Issuer::verify", "valid_credential::Proof::verify", "signal_credential::issuer::SignalIssuer::verify"],
    "C04": ["signal_credential::issuer::SignalIssuer::{verify,verify_roster_membership}", "committed_values_equal::Proof::verify"],
    "C05": ["aeonflux::user::User::obtain_finish", "issuance_revealed::Proof::verify", "signal_credential::user::SignalUser::obtain_finish"],
    "C06": ["aeonflux::amacs::SecretKey::{mac,verify}", "aeonflux::amacs::Rerandomization::apply_to_tag"],
    "C07": ["aeonflux::proofs::*::Proof::{create,verify}, bincode encoding"],
    "C08": ["aeonflux::proofs::*::Proof::verify"],
    "C09": ["aeonflux::proofs::*::Proof::{create,verify}", "transcripts of issue, obtain_finish, show, verify, verify_roster_membership"],
    "C10": ["aeonflux::proofs::*::Proof::create"],
    "C11": ["aeonflux::proofs::*::Proof::{create,verify}"],
    "C12": ["aeonflux::user::User::show", "signal_credential::user::SignalUser::show"],
    "C13": ["aeonflux::pedersen::Commitment::{to,open}", "signal_credential::phone_number::CommittedPhoneNumber::{from_phone_number,open}"],
    "C14": ["aeonflux::elgamal::{Keypair,PublicKey,SecretKey,Encryption}", "signal_credential::phone_number::PhoneNumber::encrypt"],
    "C15": ["to_bytes and from_bytes of the 23 wire types"],
    "C23": ["Serialize and Deserialize of the 23 wire types"],
    "C24": ["aeonflux::issuer::Issuer::{issue,verify}", "aeonflux::user::User::{obtain_finish,show}", "signal_credential::{SignalIssuer,SignalUser}"],
    "C25": ["aeonflux::amacs::{SecretKey,Keypair}::new", "aeonflux::issuer::Issuer::{create,new,get_issuer_parameters}", "aeonflux::elgamal::Keypair::generate"],
    "C26": ["aeonflux::issuer::Issuer::issue", "signal_credential::issuer::SignalIssuer::issue"],
    "C28": ["maths::do_things_with_maths"],
}
HARNESS = {"C28": "maths"}
BASELINE = os.path.join(C.VERIF, "lib", "sae_reached.json")


def listing(binary, pid):
    out = subprocess.run([binary, "--list"], stdout=subprocess.PIPE, text=True).stdout.split()
    return [x for x in out if x.startswith(pid + "_")]


def check(pid):
    """A report: dict with violations, findings, notes, coverage."""
    harness = HARNESS.get(pid, "harness")
    rep = {"engine": "symbolic algebra", "violations": [], "notes": [], "error": None}
    sae.prepare()
    builder = ThreadPoolExecutor(1)
    conc = builder.submit(sae.build, "conc", harness)
    binary, log = sae.build("sym", harness)
    if not binary:
        rep["error"] = "the harness does not build:\n" + log[-4000:]
        return rep
    names = listing(binary, pid)
    deadline = C.START + min(C.BUDGET, 600) - 30
    timeout = 60 if C.tier() == "quick" else 200
    per = {}
    solvers = []

    def job(n):
        s = sae.Solver()
        solvers.append(s)
        return n, sae.explore(binary, n, s, timeout=timeout, deadline=deadline, max_paths=400 if C.tier() == "quick" else 4000,
                              want_models=2 if C.tier() == "quick" else 8)

    with ThreadPoolExecutor(8) as ex:
        for n, r in ex.map(job, names):
            per[n] = r
    conc_bin, conc_log = conc.result()
    if not conc_bin:
        rep["error"] = "the replay harness does not build:\n" + conc_log[-4000:]
        return rep

    expected = {}
    if os.path.exists(BASELINE):
        expected = json.load(open(BASELINE))
    paths = decisions = replayed = witnesses = 0
    samples = []
    scratch = os.path.join(C.WORK, "tapes", pid)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    k = 0
    for n, r in sorted(per.items()):
        paths += r.paths
        decisions += r.decisions
        for u in sorted(set(r.unknown)):
            rep["notes"].append("%s: %s" % (n, u))
        lost = sorted(set(expected.get(n, [])) - r.reached)
        hit = set()
        for status, t, m in r.failures:
            k += 1
            tape = os.path.join(scratch, "%s-%d.tape" % (n, k))
            with open(tape, "w") as f:
                f.write(sae.tape(t, m))
            got = sae.replay(conc_bin, n, tape)
            if status == "witness":
                if got["status"] == "OK" and set(got["reached"]) == set(t["reached"]):
                    witnesses += 1
                    if len(samples) < 4:
                        samples.append({"scenario": n, "reached": t["reached"][:4], "tape": sae.tape(t, m).split("\n")[:3]})
                elif got["status"] in ("FAIL", "PANIC"):
                    # The real code fails where the symbolic one passes: the concrete run decides.
                    rep["violations"].append(violation(pid, n, got, t, m, "a solver model of a passing path fails on the real code"))
                else:
                    rep["notes"].append("%s: replay of a passing path differs: %s %s" % (n, got["status"], got.get("detail")))
                continue
            hit.add(t["detail"])
            if got["status"] not in ("FAIL", "PANIC", "CRASH"):
                solvers[0].deadline = time.time() + 30
                for m2 in sae.others(solvers[0], t):
                    with open(tape, "w") as f:
                        f.write(sae.tape(t, m2))
                    got2 = sae.replay(conc_bin, n, tape)
                    if got2["status"] in ("FAIL", "PANIC", "CRASH"):
                        got, m = got2, m2
                        break
            if got["status"] == status and (status == "PANIC" or got["detail"] == t["detail"]):
                replayed += 1
                rep["violations"].append(violation(pid, n, got, t, m, "counterexample"))
            elif got["status"] in ("FAIL", "PANIC", "CRASH"):
                replayed += 1
                rep["violations"].append(violation(pid, n, got, t, m, "counterexample (%s)" % t["detail"]))
            else:
                rep["notes"].append("%s: counterexample not confirmed on the real code: %s / %s %s" % (n, t["detail"], got["status"], got.get("detail")))
        lost = [x for x in lost if x.replace("checked:", "", 1) not in hit]
        if lost:
            rep["notes"].append("%s: not reached any more: %s" % (n, "; ".join(lost[:5])))
    unusual = {"models": 0, "agreeing": 0}
    known = C.known_findings(pid)
    if all(v["label"] in known for v in rep["violations"]):
        unusual = replay_unusual(pid, per, conc_bin, scratch, rep, known)
    if not names:
        rep["error"] = "no scenarios"
    missing = sorted(n for n in expected if n.startswith(pid + "_") and n not in per)
    if missing:
        rep["notes"].append("scenarios missing: %s" % missing)
    verdicts = {}
    for s in solvers:
        for v, c in s.verdicts.items():
            verdicts[v] = verdicts.get(v, 0) + c
    rep["per"] = per
    rep["coverage"] = {
        "functions_encoded": PROPERTIES[pid], "scenarios": len(per), "states": paths, "transitions": decisions,
        "infeasible_paths": sum(r.infeasible for r in per.values()),
        "largest_expression_graph": max([r.nodes for r in per.values()] or [0]),
        "identities_confirmed": sum(r.identities for r in per.values()),
        "solver": "z3 (QF_FF, exact arithmetic modulo the group order)", "queries": sum(s.queries for s in solvers), "verdicts": verdicts,
        "solver_seconds": round(sum(s.time for s in solvers), 2), "slowest_query": round(max([s.slowest for s in solvers] or [0]), 2),
        "counterexamples_replayed": replayed, "witness_paths_replayed_on_real_dalek": witnesses,
        "unusual_models_of_passing_paths_replayed": unusual, "samples": samples,
        "reached": sum(len(r.reached) for r in per.values()),
    }
    return rep


def replay_unusual(pid, per, conc_bin, scratch, rep, known):
    """What the encoding abstracts from is the bytes of field elements.  So further models of the passing paths, with unusual values and
    with values which differ in few bytes, run on the real crates."""
    total = sum(len(r.passing) for r in per.values())
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    end = min(time.time() + (60 if C.tier() == "quick" else 240), C.START + min(C.BUDGET, 600) + 60)
    each = max(6, min(200, 4000 // max(1, total)))
    count = {"models": 0, "agreeing": 0, "unguided": 0}
    stop = lambda: time.time() > end or any(v["label"] not in known for v in rep["violations"])

    # Where the encoding fails (the code computes on bytes of field elements) there are no models: such values without guidance.
    def unguided(n):
        r, count = random.Random(n), 0
        path = os.path.join(scratch, "%s-v.tape" % n)
        for k in range(40):
            if stop():
                break
            pattern = sae.PATTERNS[-1] if k % 2 else r.choice(sae.PATTERNS)
            m = {v: pattern(r) % sae.ELL for v in range(120)}
            t = {"events": list(range(120)), "vars": [[str(v), ""] for v in range(120)], "detail": ""}
            with open(path, "w") as f:
                f.write(sae.tape(t, m))
            got = sae.replay(conc_bin, n, path)
            count += 1
            if got["status"] in ("FAIL", "PANIC", "CRASH"):
                rep["violations"].append(violation(pid, n, got, t, m, "no path can be encoded; the real code fails"))
        return count

    with ThreadPoolExecutor(8) as ex:
        count["unguided"] = sum(ex.map(unguided, sorted(n for n, r in per.items() if r.unencodable)[:60]))
    jobs = [(n, i, t, rng.getrandbits(64)) for n, r in sorted(per.items()) for i, t in enumerate(r.passing)]
    rng.shuffle(jobs)

    def job(j):
        n, i, t, seed = j
        out = []
        path = os.path.join(scratch, "%s-u%d.tape" % (n, i))
        for m in sae.variants(t, random.Random(seed), each):
            if stop():
                break
            with open(path, "w") as f:
                f.write(sae.tape(t, m))
            got = sae.replay(conc_bin, n, path)
            out.append(got["status"] == "OK" and set(got["reached"]) == set(t["reached"]))
            if got["status"] in ("FAIL", "PANIC", "CRASH"):
                rep["violations"].append(violation(pid, n, got, t, m, "a model of a passing path fails on the real code"))
        return out

    with ThreadPoolExecutor(8) as ex:
        for out in ex.map(job, jobs):
            count["models"] += len(out)
            count["agreeing"] += sum(out)
    return count


def violation(pid, name, got, t, m, how):
    return {"label": got.get("detail") or t["detail"], "scenario": name, "how": how,
            "text": "scenario: %s\n%s: %s\nreplay: build the harness with sae.build('conc') and run: harness %s <this tape>\n\nvariables: %s\n\ntape:\n%s"
                    % (name, got["status"], got.get("detail"), name,
                       json.dumps({t["vars"][v][1] or t["vars"][v][0]: hex(m.get(v, 0)) for v in t["events"]}, indent=1), sae.tape(t, m))}


def record_baseline():
    """Regenerate the list of what each scenario reaches (run by hand on the unchanged tree)."""
    out = {}
    for h in sorted(set(HARNESS.values()) | {"harness"}):
        binary, log = sae.build("sym", h)
        names = subprocess.run([binary, "--list"], stdout=subprocess.PIPE, text=True).stdout.split()
        with ThreadPoolExecutor(8) as ex:
            for n, r in ex.map(lambda n: (n, sae.explore(binary, n, sae.Solver(), want_models=0)), names):
                out[n] = sorted(r.reached)
                if r.unknown or any(f[0] != "witness" for f in r.failures):
                    print(n, set(r.unknown), [(f[0], f[1]["detail"]) for f in r.failures if f[0] != "witness"])
                if not r.reached:
                    print(n, "reaches nothing")
    with open(BASELINE, "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")
