"""Writes kv/focus.json from /repo (see kv/focus.py); to be run when /repo gets a commit."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kv import focus                                    # noqa: E402

with open(focus.TABLE, "w") as f:
    json.dump({p: {k: v for k, v in focus.describe(os.path.join(focus.REPO, p)).items() if k != "bases"}
               for p in focus.files(focus.REPO)}, f, indent=0, sort_keys=True)
    f.write("\n")
