#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [extra harness arguments]
Builds the harness group that holds PROPERTY from /repo's current working tree
and explores it.  Exit 0: held on everything explored; 1: VIOLATION line printed;
2: could not decide (build error)."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import build
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    group = build.PROPS[prop]
    binary = build.build(group)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(HERE + "/replays", exist_ok=True)
    limit = "400" if tier == "quick" else "7200"
    cmd = [binary, "--prop", prop, "--tier", tier, "--seed", seed, "--limit", limit,
           "--evidence", f"{HERE}/evidence/{prop}.json", "--replaydir", HERE + "/replays", "--known", HERE + "/known_findings.txt"] + sys.argv[3:]
    r = subprocess.run(cmd, cwd=HERE)
    sys.exit(r.returncode if r.returncode in (0, 1) else 2)
main()
