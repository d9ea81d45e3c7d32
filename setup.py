"""Checks that the tools the checks need are there.  Nothing has to be built: every check compiles and translates /repo itself."""
import shutil, subprocess, sys
miss = [t for t in ('clang++', 'g++', 'z3-new', 'cvc5', 'python3-vt') if shutil.which(t) is None]
if miss: sys.exit('missing: ' + ' '.join(miss))
sys.exit(subprocess.call(['python3-vt', '-c', 'import z3']))
