"""checks that the tools the framework needs are present (nothing has to be built ahead of the checks)"""
import shutil, sys
missing = [t for t in ('clang++-18', 'z3', 'cvc5') if not shutil.which(t)]
import z3
print('z3', z3.get_version_string(), 'missing:', missing)
sys.exit(1 if missing else 0)
