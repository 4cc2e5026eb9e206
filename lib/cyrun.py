"""Runs the Cython compiler of the PyPy environment under this interpreter (five times faster than under PyPy; same output).

usage: cyrun.py LINKS ARGS...   LINKS: a directory holding links to the Cython and numpy packages
"""
import sys

links = sys.argv.pop(1)
sys.path.insert(0, links)
sys.dont_write_bytecode = True
from Cython.Compiler.Main import main  # noqa: E402

sys.argv[1:1] = ['-I', links]
main(command_line=1)
