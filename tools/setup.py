#!/usr/bin/env python3
"""Nothing of the setup carries over to the checks: only see that the tools are there."""
import subprocess, sys
for c in (["verus", "--version"], ["cargo", "--version"]):
    if subprocess.run(c, stdout=subprocess.DEVNULL).returncode:
        sys.exit("missing: " + c[0])
