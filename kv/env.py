"""Puts /repo's working tree (and nothing else called kiel) on the path."""
import logging
import os
import sys
import warnings

REPO = os.environ.get("KV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import kiel
    where = os.path.realpath(kiel.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("kiel imported from %s, not from %s" % (where, REPO))
