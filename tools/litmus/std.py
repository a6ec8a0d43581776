#!/usr/bin/env python3
"""Self-test of the engine's Go: what std/*.go.txt do with the language and the standard library, by the encoding and by the
compiled code (run as the harnesses of a copy of /verif).  Not a check of /repo."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with tempfile.TemporaryDirectory() as d:
    for x in ("engine", "check.py", "known_findings.txt", "MANIFEST.json", "properties.jsonl"):
        (shutil.copytree if os.path.isdir(f"{V}/{x}") else shutil.copy)(f"{V}/{x}", f"{d}/{x}")
    shutil.copytree(V + "/harness/vp", d + "/harness/vp")
    os.makedirs(d + "/harness/std")
    for f in os.listdir(V + "/tools/litmus/std"):
        shutil.copy(f"{V}/tools/litmus/std/{f}", f"{d}/harness/std/{f[:-4]}")
    r = subprocess.run([sys.executable, "check.py", "C99"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(r.stdout)
    sys.exit(r.returncode or "REDUCED" in r.stdout)
