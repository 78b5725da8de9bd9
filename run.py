#!/usr/bin/env python3
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import run  # noqa: E402

if __name__ == "__main__":
    sys.stdout.flush()
    rc = run.main()
    sys.stdout.flush()
    os._exit(rc)
