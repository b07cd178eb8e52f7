#!/usr/bin/env python3
"""setup_cmd: check the tools and warm the caches (every check also builds what it needs by itself)."""
import subprocess, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
sys.exit(subprocess.call([PY, '-c', 'import sys; sys.path.insert(0, %r)\nimport z3, cvc5, build\nb = build.build(); print("IR units:", b["units"]); print(build.native(b))' % HERE]))
