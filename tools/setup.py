"""setup_cmd: build the Cython extensions from /repo's tree and check that everything imports."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import runner
runner.ensure_built()
runner.setup_paths()
import hypothesis, pygsti
print("hypothesis", hypothesis.__version__, "pygsti", pygsti.__file__)
