"""nothing is built: the checks run from the committed files. This only confirms that the tools are there."""
import subprocess, sys
for c in (["/opt/venv/bin/python", "-c", "import numpy, pandas, networkx, pgmpy"], ["python3-vt", "-c", "import z3, networkx"]):
    r = subprocess.run(c, capture_output=True, text=True)
    if r.returncode: print("missing:", c, r.stderr[-500:]); sys.exit(1)
print("ok")
