import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vpf.runner import main
if __name__ == "__main__":
    sys.exit(main())
