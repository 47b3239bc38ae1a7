#!/usr/bin/env python3
"""run.py Cnn [--tier quick|thorough] [--seed N] [--replay FILE] ...  Runs the check of one property."""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", LANG="C.UTF-8",
               LANGUAGE="C")
    os.execve(sys.executable, [sys.executable] + sys.argv, env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv.pop(1)
from kv import engine                                   # noqa: E402

mod = None
try:
    mod = importlib.import_module("checks." + prop.lower())
except Exception as e:                                  # noqa: E722
    # the library cannot even be imported or set up: no guarantee of it holds
    if not engine.in_repo(e.__traceback__):
        raise
    sys.exit(engine.import_failure(prop, e))
sys.exit(engine.main(prop, mod.TESTS, mod.RULE, getattr(mod, "ASSUMPTIONS", ()), known=getattr(mod, "known", None),
                     setup=getattr(mod, "setup", None)))
