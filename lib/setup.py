#!/usr/bin/env python3
"""Builds the Java arithmetic module; harnesses are built by the checks, from /repo's tree at that time."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "build"), exist_ok=True)
T = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
src = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(V, "java")) for f in fs if f.endswith(".java")]
out = os.path.join(V, "build", "setup-classes")
os.makedirs(out, exist_ok=True)
sys.exit(subprocess.run(["javac", "-nowarn", "-cp", T, "-d", out] + src).returncode)
