import os, sys
from . import run
pid = sys.argv[1]
tier = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv:
    tier = 'thorough'
sys.setrecursionlimit(20000)
sys.exit(run.main(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1)))
