#!/usr/bin/env python3
"""Check that the tools the checks use are present. Nothing is built ahead: every check builds from /repo."""
import os, shutil, sys
need = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
missing = [p for p in need if not os.path.exists(p)] + [t for t in ("java", "g++") if not shutil.which(t)]
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
