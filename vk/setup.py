#!/usr/bin/env python3
"""Checks that the tools are present; checks build what they need themselves."""
import shutil, sys
missing = [t for t in ("g++", "ninja", "ar") if not shutil.which(t)]
if missing: print("missing:", missing); sys.exit(1)
print("ok")
