#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vk import core, props, props2, derive, caps
if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(core.run(pid, props.CHECKS[pid]))
