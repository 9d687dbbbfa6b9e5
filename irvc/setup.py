"""python3 -m irvc.setup: checks the tools and warms the build (nothing it leaves behind is required)"""
import shutil, sys
from . import program
for t in ('z3', 'cvc5', 'cargo', 'llvm-dis-18'):
    if not shutil.which(t) and t != 'llvm-dis-18':
        print('missing', t)
        sys.exit(1)
P = program.Program()
P.build()
print('setup ok', P.times)
