"""python3-vt run.py <property id> | --replay <file>      (VERIF_SEED, VERIF_TIER from the environment)"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.run import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
