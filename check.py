#!/opt/venv/bin/python
"""check.py ID [quick|thorough]   or   check.py --replay FILE"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import driver
if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(driver.replay_cli(sys.argv[2]))
    sys.exit(driver.main(sys.argv[1:]))
