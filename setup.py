#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there. Every check builds what it needs itself."""
import subprocess, sys
for c in (["cargo", "kani", "--version"], ["cargo", "--version"], ["cvc5", "--version"]):
    if subprocess.run(c, stdout=subprocess.DEVNULL).returncode:
        sys.exit("missing: " + " ".join(c))
