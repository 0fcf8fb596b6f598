#!/usr/bin/env python3
"""Set-up: everything a check needs is installed (nothing is built ahead of a check)."""
import shutil, sys
bad = [t for t in ('clang++', 'why3', 'z3', 'z3-new', 'cvc5', 'python3') if not shutil.which(t)]
if bad: print('missing tools: %s' % bad); sys.exit(1)
print('tools present')
