#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property from /repo's current source."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import driver
    sys.exit(driver.check(prop, tier))


if __name__ == '__main__':
    main()
