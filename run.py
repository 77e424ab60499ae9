#!/usr/bin/env python3
""" run.py <property> [--replay FILE]: run one check (see DESIGN.md). """
import sys
sys.dont_write_bytecode = True
from vlib import mon

if __name__ == '__main__':
    sys.exit(mon.main())
