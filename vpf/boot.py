"""Process set-up shared by the parent, the shards and child processes.

rocketry is imported from /repo (VERIF_REPO overrides, for scratch experiments
only); Hypothesis comes from the preinstalled tooling venv, appended last so
that nothing of it can shadow the application's own dependencies.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if VT not in sys.path:
        sys.path.append(VT)


setup()
