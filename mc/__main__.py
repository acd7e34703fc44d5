import sys

from mc import core

sys.exit(core.main(sys.argv[1:]))
