"""Entry point: run.py <property id> <tier> [--replay FILE]"""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter('ignore')
from vlib import harness  # noqa: E402

if __name__ == '__main__':
    sys.exit(harness.main(sys.argv[1:]))
