"""records the numeric constants of the current tree (vlib/consts.json)"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import target                      # noqa: E402

with open(target.RECORD, "w") as fh:
    json.dump(target.count_constants(), fh, indent=0, sort_keys=True)
