#!/usr/bin/env python3-vt
"""Decide one property:  check.py C01 [--tier quick|thorough]
                        check.py --replay FILE
Exit 0: every obligation discharged (or the stated stand-in found nothing);
exit 1 and a VIOLATION line otherwise."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get(
        'PYTHONUTF8') != '1':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONUTF8'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MD_TOC_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from driver import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
