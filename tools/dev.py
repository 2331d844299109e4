#!/usr/bin/env python3
"""tools/dev.py <san> <part,part> <target>: builds one harness program from /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build
try:
    b, t = build.prepare(sys.argv[1], sys.argv[2].split(","), [sys.argv[3]])
    print(os.path.join(b, sys.argv[3]), round(t))
except build.BuildError as e:
    print("\n".join(l[:300] for l in e.log.splitlines() if "error:" in l or "undefined reference" in l)[:3000] or e.log[-2000:])
    sys.exit(1)
