"""Loads the code under test from /repo's working tree, and nothing else."""

import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('VF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for _name in [n for n in sys.modules if n.split('.')[0] == 'structured']:
    del sys.modules[_name]

import structured  # noqa: E402

_origin = os.path.realpath(structured.__file__)
if not _origin.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f'structured imported from {_origin}, not from {REPO}')
