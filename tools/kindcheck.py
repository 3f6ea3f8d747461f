#!/usr/bin/env python3
"""kindcheck.py KINDS PROPS [main.py options]: run checks on services of the given kinds only (comma separated)"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim"))
import host
import main
kinds, props = sys.argv[1].split(","), sys.argv[2].split(",")
rest = sys.argv[3:]
rc = 0
for p in props:
    prop = host.find_prop(p)
    prop.kinds = kinds
    type(prop).kinds = kinds
    sys.argv = ["main.py", "check", p] + rest
    try:
        main.main()
    except SystemExit as e:
        print(p, "exit", e.code)
