import sys
from pbt import core
a = sys.argv[1:]
if a[0] == "--worker": core.worker(a[1], a[2], a[3], int(a[4]), int(a[5]), float(a[6]), a[7])
elif a[0] == "--replay-worker": core.replay_worker(a[1], a[2])
