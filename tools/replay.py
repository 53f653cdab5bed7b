#!/usr/bin/env python3
"""replay.py FILE [log] - replays a recorded execution against /repo's current tree and prints its event trace.
Exit 1 when the recorded violation shows again, 0 when it does not."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, simproc
h, _ = simproc.read_replay(sys.argv[1])
exe = build.build(h.get("variant", "plain"))
r = simproc.run_one(exe, simproc.replay_line(sys.argv[1], "trace"))
print(r.get("trace", "")); v = simproc.viols(r)
for t, x in v: print("%s: %s" % (t, x))
print("hash", r.get("hash"))
sys.exit(1 if any(t == h.get("tag") for t, _ in v) else 0)
