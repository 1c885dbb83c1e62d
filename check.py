#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   decides one property of /repo's current tree"""
import os, sys
PY = '/opt/veriftools/pyvenv/bin/python'
if 'VERIF_PY' not in os.environ and os.path.exists(PY) and not sys.prefix.startswith('/opt/veriftools/pyvenv'):
    os.environ['VERIF_PY'] = '1'; os.environ.setdefault('PYTHONHASHSEED', '0')
    os.execv(PY, [PY, '-u'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.runner import main
main()
