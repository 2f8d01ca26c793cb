"""Nothing to build: check that the tools the checks use are there."""
import subprocess
for c in (["/opt/venv/bin/python", "-c", "import numpy, scipy, pandas"], ["/opt/veriftools/pyvenv/bin/python", "-c", "import numpy, z3"]):
    subprocess.run(c, check=True)
print("ok")
