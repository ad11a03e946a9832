# python run.py FAMILY [options]: the driver of one family of cases
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common                                                   # noqa: E402

name = sys.argv.pop(1)
fam = importlib.import_module("fam_" + name)
common.main(fam)
