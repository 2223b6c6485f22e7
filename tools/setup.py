"""Setup check: the tools the framework needs are there (nothing is built)."""
import subprocess
import sys

subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3"], check=True)
subprocess.run(["cvc5", "--version"], check=True, stdout=subprocess.DEVNULL)
subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", "import sys; sys.path.insert(0, '/repo'); import ocfl"], check=True)
print("ok")
