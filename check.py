#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [engine options]: rebuilds what the check needs from
/repo's working tree, runs it, and writes evidence/<ID>.json.
Exit 0: held. Exit 1 + VIOLATION line: broken. Anything else: error."""
import os, sys, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, os.path.join(HERE, "harness"))
import build as B

def main():
    pid = sys.argv[1]
    os.makedirs("evidence", exist_ok=True)
    ev = os.path.join("evidence", pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    cands = sorted(f for f in os.listdir("harness/props") if f.startswith(pid + "_"))
    if not cands:
        print(f"no harness for {pid}")
        return 3
    exe = cands[0][:-4]
    rc, out = B.build([f"bin/{exe}"])
    if rc:
        print(out[-6000:])
        print("error: the check does not build against this tree")
        return 3
    r = subprocess.run([os.path.join(B.BUILD, "bin", exe), "--evidence", ev,
                        "--known", "known_findings.json", "--replay-dir", os.path.join("evidence", "replays")]
                       + sys.argv[2:])
    return r.returncode if r.returncode >= 0 else 3

sys.exit(main())
