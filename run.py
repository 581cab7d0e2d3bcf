#!/usr/bin/env python3
"""Driver of the runtime monitors:  run.py <PROPERTY> [quick|thorough] [--replay FILE] [--seed N] [--cases N]

Builds the monitor of one property from /repo's current working tree with sanitizers, runs it over
seeded workloads on several processes, turns what the oracles and sanitizers observed into a verdict,
and writes evidence/<PROPERTY>.json.  Exit 0: held on everything explored; exit 1 with a VIOLATION
line: broken; any other exit: the check itself could not give an answer."""
import sys, os, re, json, time, shutil, subprocess, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import vrun
if __name__ == '__main__':
    sys.exit(vrun.main(sys.argv[1:]))
