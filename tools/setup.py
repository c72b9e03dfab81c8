"""Setup: checks that the tools are there and builds the engine once (each check rebuilds when the tree differs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import build, env
p = build.build("plain")
ux = env.setup(p)
print("engine", p, "package", ux.__file__)
