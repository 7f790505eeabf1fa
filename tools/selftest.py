"""setup: checks that the tools the framework needs are present and that one unit runs"""
import os
import subprocess
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import z3
r = subprocess.run([sys.executable, os.path.join(root, 'run.py'), 'C17', '--tier', 'quick', '--only', 'tag=b8'], cwd=root)
sys.exit(r.returncode)
