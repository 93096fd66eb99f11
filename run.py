#!/usr/bin/env python3
"""run.py Cxx [--thorough]: decide one property on the current /repo sources."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import resource, threading
from engine import check
if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        print(check.build_extractor())
        sys.exit(0)
    threading.stack_size(1 << 29)
    rc = [2]
    def go():
        try:
            rc[0] = check.main(sys.argv[1:])
        except SystemExit as e:
            rc[0] = e.code if isinstance(e.code, int) else 2
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
