#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property of the code in /repo.

Exit 0: it held on everything explored; 1: `VIOLATION property=<id> replay=<path>`; 2: the check could not run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import registry

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    sys.exit(registry.run(args[0]))
