"""Entry point of worker processes."""
import sys

from .engine import main

if __name__ == "__main__":
    main(sys.argv[1:])
