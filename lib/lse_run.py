"""Runs harnesses (with the interpreter which has z3): reads a JSON list of jobs, prints one JSON report per line."""
import json, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
import llir, lsx

MOD = None


def job(j):
    x = lsx.Executor(MOD, j["limits"])
    x.merging = j["merging"]
    t = time.time()
    try:
        r = x.run(j["name"])
    except Exception:
        return {"entry": j["name"], "error": traceback.format_exc()[-1500:], "wall": time.time() - t}
    r["wall"] = round(time.time() - t, 2)
    r["reached"] = sorted(r["reached"])
    for e in r["events"] + r.get("witnesses", []):
        for t in ("tape", "tape0"):
            if t in e:
                e[t] = [[k, b.hex()] for k, b in e[t]]
    return r


if __name__ == "__main__":
    MOD = llir.Module(open(sys.argv[1]).read())
    jobs = json.load(sys.stdin)
    deadline = time.time() + float(sys.argv[3])
    with ProcessPoolExecutor(int(sys.argv[2])) as ex:
        for f in as_completed([ex.submit(job, j) for j in jobs]):
            print(json.dumps(f.result()), flush=True)
