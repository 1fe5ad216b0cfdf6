#!/usr/bin/env python3
"""replay.py FILE: rebuild from /repo and replay one minimised trace. Exit 1: reproduced. 0: no violation."""
import subprocess, sys
sys.dont_write_bytecode = True
import build
r = subprocess.run([build.build(), "replay", sys.argv[1]])
sys.exit(r.returncode)
