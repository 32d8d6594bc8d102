"""setup_cmd: nothing to build; confirms that z3 and the interpreter load."""
import sys, os
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from symex import core, engine, loader
print("z3", z3.get_version_string())
