#!/usr/bin/env python3
"""Nothing has to be built ahead of the checks; this only confirms that the tools they need are there."""
import os, subprocess, sys
py = os.environ.get('VT_PY', '/opt/vrtgen-venv/bin/python')
subprocess.run(['g++', '--version'], check=True, stdout=subprocess.DEVNULL)
subprocess.run([py, '-c', 'import yaml, jinja2'], check=True)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ready')
