import sys
from . import core
core.bootstrap()
code = core.main()
sys.stdout.flush(); sys.stderr.flush()
sys.exit(code)
