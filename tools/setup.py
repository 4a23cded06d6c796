#!/usr/bin/env python3
"""Warms the Go build cache for the checks (normal and race builds). Optional: each check builds what it needs."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import run
tmp = tempfile.mkdtemp(prefix="vk_setup_")
try:
    ov = run.overlay(tmp)
    for extra in ([], ["-race"]):
        r = subprocess.run(["go", "build", "-overlay", ov, "-tags", "jsoniter"] + extra + ["-o", os.path.join(tmp, "x"), "./internal/zzverif/c01"], cwd=run.REPO, env=run.goenv())
        if r.returncode: sys.exit(r.returncode)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
