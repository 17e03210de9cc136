import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path.insert(1, "/repo")

from pbt import shim  # noqa: E402

shim.install()

from pbt import engine  # noqa: E402

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:]))
