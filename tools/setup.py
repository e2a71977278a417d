#!/usr/bin/env python3
"""Nothing needs to be built ahead: every check builds what it needs from /repo.
This only says early when the toolchain is incomplete."""
import os, shutil, sys
bad = [t for t in ("java", "gcc", "clang") if not shutil.which(t)]
bad += [j for j in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar") if not os.path.exists(j)]
print("missing: " + " ".join(bad) if bad else "ok")
sys.exit(1 if bad else 0)
