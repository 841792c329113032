#!/usr/bin/env python3
"""setup_cmd: builds the harness crates once (each check builds again what changed)."""
import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")]
import vlib
for c in ("shellpart", "shellfull", "engine"):
    try:
        vlib.build(c, timeout=1500)
    except vlib.ToolError as e:
        vlib.log(e)
        sys.exit(1)
