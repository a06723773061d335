#!/usr/bin/env python3
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.report import main
threading.stack_size(512 * 1024 * 1024)
rc = []
t = threading.Thread(target=lambda: rc.append(main(sys.argv)))
t.start()
t.join()
sys.exit(rc[0] if rc else 4)
