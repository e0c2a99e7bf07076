"""python -m checks.run P01 [--tier quick|thorough] [--only substring] [-v]"""
import sys
from symx import harness

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(harness.run_check("checks." + pid.lower(), sys.argv[2:]))
