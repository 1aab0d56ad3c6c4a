#!/bin/sh
# Builds every simulator from /repo's working tree and runs the simulator's self-test.
cd "$(dirname "$0")" && exec python3 -c '
import build, plan, sys
t = sorted({t for p in plan.PLAN.values() for t, _ in p["targets"]})
rc, out = build.build(t)
sys.stdout.write(out[-2000:])
sys.exit(rc)'
