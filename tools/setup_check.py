"""Nothing is built: checks that the tools the framework needs are there."""
import sys

import z3

sys.path.append('/opt/venv/lib/python3.12/site-packages')
import fpyutils  # noqa: E402,F401

print('z3', z3.get_version_string(), 'python', sys.version.split()[0])
