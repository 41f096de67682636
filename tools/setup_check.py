#!/usr/bin/env python3
"""Nothing is cached between runs: verifies only that the tools the checks need are present."""
import shutil, sys, os
missing=[t for t in ('g++','python3') if not shutil.which(t)]
if not os.path.exists('/usr/include/boost/multiprecision/cpp_int.hpp'): missing.append('boost multiprecision')
if missing: print('missing:',missing); sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'evidence'),exist_ok=True)
print('ok')
