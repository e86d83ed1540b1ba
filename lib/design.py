"""spec/DaemonImpl.tla: the way the daemon works has the properties, and each way of getting it wrong has not."""
import os, sys, time
from concurrent.futures import ThreadPoolExecutor
from common import *

# what somebody may get wrong: how many requests, failures and lives it takes to be seen, and of which properties it is
VARIANTS = {
    "does not invalidate": (3, 0, 1, ("D01", "D02", "D03")),
    "invalidates before the lock": (3, 0, 1, ("D02", "D03")),
    "remembers after the lock": (3, 0, 1, ("D02", "D03")),
    "unlinks after the lock": (3, 0, 1, ("D02", "D07")),
    "does not unlink": (2, 0, 1, ("D07",)),
    "gone if it cannot be unlinked": (2, 1, 1, ("D01", "D09")),
    "saves without the lock": (2, 0, 1, ("D06", "D12")),
    "writes in place": (1, 0, 1, ("D06", "D09")),
    "missing is empty": (2, 0, 1, ("D05", "D07")),
    "a failure ends the save": (2, 1, 1, ("D06", "D09", "D11")),
    "what failed is not listed": (2, 1, 1, ("D06", "D09", "D11")),
    "stops before all is answered": (1, 0, 1, ("D05", "D08")),
    "no last save": (1, 0, 1, ("D05", "D08", "D11")),
    "lists what was never written": (2, 1, 2, ("D06", "D09")),
    "forgets what it could not read": (1, 1, 2, ("D13",)),
    "a failure ends the saver": (2, 1, 1, ("D09", "D11")),  # seen in what never comes about only
}
LIVE = {"a failure ends the saver": "D11"}
INV = "INVARIANTS TypeOk Answers CacheIsRight MemIsRight NothingLost NothingBack Stopped"
CFG = """SPECIFICATION {spec}
CONSTANTS
  Dbs = {{a, b}}
  Clients = {{c1, c2}}
  MaxOps = {ops}
  MaxFaults = {faults}
  MaxLives = {lives}
  Bug = "{bug}"
{sym}
{what}
CHECK_DEADLOCK FALSE
"""


def check(prop, bug, ops, faults, lives, live=None, timeout=800, workers=2, xmx="4g"):
    w = work(f"design-{prop}-{bug.replace(' ', '-')}-{ops}{faults}{lives}{'l' if live else ''}")
    cfg = os.path.join(w, "d.cfg")
    with open(cfg, "w") as h:
        h.write(CFG.format(spec="LiveSpec" if live else "Spec", ops=ops, faults=faults, lives=lives, bug=bug, sym="" if live else "SYMMETRY Sym", what=f"PROPERTIES {live}" if live else INV))
    rc, out = tlc("DaemonImpl", cfg, w, workers=workers, timeout=timeout, xmx=xmx)
    if "Model checking completed. No error" in out:
        return "", states(out)
    if re.search(r"Error: (Invariant|Temporal propert)", out):
        return re.search(r"Error: (.*)", out).group(1), states(out)
    raise ToolError("TLC on DaemonImpl: " + why(out))


def design(prop, cov):
    """The model, and what its variants get wrong"""
    bugs = {b: v for b, v in VARIANTS.items() if prop in v[3]}
    jobs = [("none", 2, 1, 2, None)] + [(b, *v[:3], "Saves" if b in LIVE else None) for b, v in bugs.items()]
    if THOROUGH:
        jobs += [("none", 3, 1, 1, None), ("none", 2, 2, 2, None)]
        jobs += [("none", 2, 1, 1, {"D02": "Answered", "D08": "Exits", "D11": "Saves"}[prop])] if prop in ("D02", "D08", "D11") else []
    with ThreadPoolExecutor(4) as ex:
        got = list(ex.map(lambda j: check(prop, *j), jobs))
    tot = [0, 0]
    for j, (said, st) in zip(jobs, got):
        if (j[0] == "none") != (said == ""):
            raise ToolError(f"DaemonImpl, {j[0]}: {said or 'not found wanting'}")
        tot[0] += st[0]
        tot[1] += st[1]
    cov["design"] = dict(model="spec/DaemonImpl.tla", states=tot[1], transitions=tot[0], variants_found_wanting=sorted(bugs))


if __name__ == "__main__":
    for p in sys.argv[1:]:
        t, c = time.time(), {}
        design(p, c)
        print(p, c, f"{time.time() - t:.0f} s", flush=True)
