"""Sanity check: the interpreter and the package under test can be used."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call(
    ['/opt/venv/bin/python', '-B', '-c',
     'import sys; sys.path.insert(0, sys.argv[1]); '
     'import badidatetime; print(badidatetime.__file__)',
     os.environ.get('VERIF_REPO', '/repo')],
    env={**os.environ, 'PYTHONPATH': os.path.join(HERE, 'lib')}))
