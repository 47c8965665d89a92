"""Nothing to compile: verify that the tools the checks need are there."""
import subprocess
import sys

import z3

print("z3", z3.get_version_string())
r = subprocess.run(["/opt/venv/bin/python", "-c", "import func_args; print('project python ok')"])
sys.exit(r.returncode)
