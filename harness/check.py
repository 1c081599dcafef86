"""check.py <property>: decide one property, see DESIGN.md."""

import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True

import lib  # noqa: E402

lib.main(sys.argv)
