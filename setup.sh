#!/bin/bash
# Build the harnesses once (the checks rebuild from /repo whenever it changed).
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import legs
ok = True
for crate, profile in (("core", "dev"), ("core", "release"), ("expo", "dev")):
    p, d = legs.build(crate, profile)
    print(crate, profile, "ok" if p.rc == 0 else p.err[-2000:])
    ok = ok and p.rc == 0
sys.exit(0 if ok else 1)
P
