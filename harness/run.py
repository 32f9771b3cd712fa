"""Entry point of every check."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

boot.install()

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import engine  # noqa: E402

if __name__ == "__main__":
    engine.main(sys.argv[1:])
