"""Import the code under test from the repository's working tree."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import pyNTM  # noqa: E402

if not os.path.abspath(pyNTM.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit("pyNTM imported from %s, not from %s" % (pyNTM.__file__, REPO))

from pyNTM import (  # noqa: E402,F401
    FlexModel,
    PerformanceModel,
    Parallel_Link_Model,
    Model,
    Node,
    Interface,
    Demand,
    RSVP_LSP,
    SRLG,
    ModelException,
)
