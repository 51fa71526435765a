#!/bin/bash
# Builds the harness once (plain and with the race detector) to warm the Go build cache and
# parses every specification.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import vlib, subprocess, glob, os
r = vlib.Run("setup", "quick", 1)
r.harness(False)
r.harness(True)
for f in sorted(glob.glob("spec/*.tla")):
    p = subprocess.run(["java", "-cp", vlib.JAR, "tla2sany.SANY", os.path.basename(f)], cwd="spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise SystemExit("SANY %s\n%s" % (f, p.stdout[-2000:]))
import shutil
shutil.rmtree(r.work, ignore_errors=True)
P
echo "setup done"
