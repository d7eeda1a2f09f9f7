"""nothing is kept between runs: every check regenerates its obligations from /repo.  This only verifies the tools are there."""
import shutil, sys
import z3
miss = [t for t in ('clang++', 'g++', 'cvc5', 'z3-new') if not shutil.which(t)]
print('tools ok' if not miss else 'missing: %s' % miss)
