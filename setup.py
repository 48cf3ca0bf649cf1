#!/usr/bin/env python3
"""Offline setup: nothing to install; checks build what they need into build/."""
import os, shutil, sys
V = os.path.dirname(os.path.abspath(__file__))
for d in ("build", "evidence", "replay"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
missing = [t for t in ("clang++", "g++", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
