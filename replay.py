#!/usr/bin/env python3
"""replay.py FILE [-v]: rebuild the configuration a replay file names from /repo's working tree and replay it."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build_sim
f = os.path.abspath(sys.argv[1]); v = re.search(r'variant (\S+)', open(f).read()).group(1)
out = os.path.join(build_sim.VERIF, 'build', 'replay'); exe = build_sim.build([v], out)[v]
sys.exit(subprocess.run([exe, 'replay', f] + sys.argv[2:]).returncode)
