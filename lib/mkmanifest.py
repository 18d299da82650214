"""Write MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = [
    dict(property="C21", reason="Liveness of two communicating endpoints over unbounded fair schedules: contracts over one call or one "
         "data structure cannot express it (no fairness, no termination measure over both ends). Its safety parts are C02 to C20, "
         "its wake-up part is C15."),
    dict(property="C22", reason="Kani has no threads, and Verus reasons about them only through its own permission types, which the "
         "crate's Mutex, channel and Waker do not carry; every contract here is about a call that runs without interference."),
]


def note(p):
    b = sorted({h["bound"] for h in p["harnesses"] if h.get("bound")})
    full = [h["name"] for h in p["harnesses"] if not h.get("bound")]
    s = "Contracts on the crate's own source, every obligation discharged on every run. "
    s += "Unbounded (loop-free or fully unwound, full-domain inputs): %s. " % (", ".join(full) if full else "none")
    for x in b:
        s += "Bounded, %s: %s. " % (x, ", ".join(h["name"] for h in p["harnesses"] if h.get("bound") == x))
    v = p.get("verus")
    if v:
        s += "Unbounded by Verus: %s. " % ", ".join(dict.fromkeys(f for u in v for f in u[1]))
    s += "External crates by their contracts (verif/models); calls run without interference from other threads."
    return s


m = dict(
    version=1,
    setup_cmd="cargo kani --version && verus --version",
    hooks=dict(guard="cfg(kani)", enable="none in /repo: each run copies /repo/yamux/src and appends `#[cfg(kani)] mod` lines to the copy", source_commits=[]),
    checks=[dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                 technique="contract-based deductive verification: Kani/CBMC contract harnesses on the crate's source" + (" + Verus contracts on extracted functions" if PROPS[i].get("verus") else ""),
                 level="proof", level_note=note(PROPS[i])) for i in sorted(PROPS)],
    not_applicable=NA,
    notes="See DESIGN.md. Known findings: known_findings.txt (all repaired).")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
