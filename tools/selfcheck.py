"""setup: the tools the checks need are there"""
import shutil, sys
for t in ('clang-18', 'opt-18', 'llvm-link-18', 'bison', 'flex'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
import z3
print('z3', z3.get_version_string())
