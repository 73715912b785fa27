"""Builds what the checks use, so that each of them only rebuilds what changed."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, plan  # noqa: E402

for fam in plan.FAMILIES.values():
    common.build(fam.crate, fam.binary)
