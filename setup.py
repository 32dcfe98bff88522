#!/usr/bin/env python3
"""Builds every harness once (from /repo's working tree), so that the checks find a warm compiler cache. A check rebuilds
what it needs by itself; a failure here is reported and left to the check it concerns."""
import sys
from concurrent.futures import ThreadPoolExecutor
import run

bins = []
for c in run.CHECKS.values():
    for s in c["steps"]:
        k = (s["mod"], s["name"], bool(s.get("race")))
        if k not in bins:
            bins.append(k)
ov = run.overlay()


def one(k):
    _, rc, log = run.build(*k, ov)
    if rc:
        print("setup: %s did not build:\n%s" % (k, log[-3000:]))
    return rc


progs = sorted({(m, p, bool(s.get("race"))) for c in run.CHECKS.values() for s in c["steps"] for m, p in s.get("bins", [])})


def prog(k):
    _, rc, log = run.build_bin(*k)
    if rc:
        print("setup: %s did not build:\n%s" % (k, log[-3000:]))


# first one of each kind alone (it fills the cache), the rest side by side
first = {}
for k in bins:
    first.setdefault((k[0], k[2]), k)
for k in first.values():
    one(k)
with ThreadPoolExecutor(4) as ex:
    list(ex.map(one, [k for k in bins if k not in first.values()]))
    list(ex.map(prog, progs))
print("setup: %d harness binaries, %d programs" % (len(bins), len(progs)))
