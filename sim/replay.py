#!/usr/bin/env python3
"""replay.py REPLAY-FILE: re-executes one recorded episode in a fresh process."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine
if __name__ == "__main__":
    sys.exit(engine.replay(sys.argv[1]))
