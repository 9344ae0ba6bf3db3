#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses (nothing needs to be prepared)."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vk import core

def sany(f):
    p = subprocess.run(["java", "-cp", core.CP, "tla2sany.SANY", f], cwd=core.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return f, p.returncode == 0 and "*** Errors" not in p.stdout and "Fatal" not in p.stdout, p.stdout

def main():
    subprocess.run(["cargo", "--version"], check=True, env=core.cargo_env())
    with ThreadPoolExecutor(8) as ex:
        bad = [(f, o) for f, ok, o in ex.map(sany, sorted(glob.glob(core.SPEC + "/*.tla"))) if not ok]
    for f, o in bad:
        print(f, o[-1500:])
    return 1 if bad else 0
if __name__ == "__main__":
    sys.exit(main())
