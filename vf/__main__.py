import sys
from vf import core

sys.exit(core.main(sys.argv[1:]))
