"""setup_cmd: nothing to build; checks that the tools the framework needs are there."""
import os, subprocess, sys
VT = "/opt/veriftools/pyvenv/bin/python"
sys.exit(subprocess.call([VT, "-B", "-c", "import numpy, z3, scipy; print('tools ok', numpy.__version__, z3.get_version_string())"],
                         cwd=os.path.dirname(os.path.abspath(__file__))))
