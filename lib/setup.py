"""Checks that the tools the harnesses need are present."""
import shutil, sys
missing = [t for t in ('g++', 'python3') if not shutil.which(t)]
print('missing: %s' % missing if missing else 'ready')
sys.exit(1 if missing else 0)
