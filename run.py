import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from dv import tools  # noqa: E402,F401
from dv import runner  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(runner.replay(sys.argv[2]))
    sys.exit(runner.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
