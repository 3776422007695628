"""Checks that what the checks need is there. Nothing has to be built in advance: every check builds from /repo itself."""
import shutil, sys
import z3
assert shutil.which('mpirun.openmpi') and shutil.which('mpicxx.openmpi') and shutil.which('clang')
print('z3', z3.get_version_string())
