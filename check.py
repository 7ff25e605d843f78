#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree; see DESIGN.md."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True

from checks import CHECKS  # noqa: E402

sys.exit(CHECKS[sys.argv[1]].run())
