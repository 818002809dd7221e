"""Which engines decide which property."""
import sys, time
import common as C
import lse_check
import sae_check


def run(pid):
    parts = []
    if pid in sae_check.PROPERTIES:
        parts.append(sae_check)
    if pid in lse_check.PROPERTIES:
        parts.append(lse_check)
    if not parts:
        print("no check for %s" % pid)
        return 2
    reports = [p.check(pid) for p in parts]
    return C.conclude(pid, reports)
