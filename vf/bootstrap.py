"""
Path set-up. Imported first by everything else.

The code under test is imported from /repo's working tree (VERIF_REPO may point elsewhere for the maintainers of
this machinery, e.g. at a scratch copy with a planted change; no registered command sets it). Hypothesis comes
from the pre-installed verification venv, appended at the end of sys.path so that nothing else is shadowed.
"""
import logging
import os
import sys

sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
if _TOOLS not in sys.path:
    sys.path.append(_TOOLS)

logging.getLogger("omemo").setLevel(logging.CRITICAL + 1)
logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)


def assert_repo() -> None:
    import omemo
    real = os.path.realpath(omemo.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"omemo imported from {real}, not from {REPO}")


def _virtual_reactor() -> "object":
    """Twisted's own deterministic clock in place of a reactor, so that time is virtual there, too."""
    try:
        import twisted.internet
        from twisted.internet.task import Clock
    except ImportError:
        return None
    clock = Clock()
    sys.modules["twisted.internet.reactor"] = clock  # type: ignore[assignment]
    twisted.internet.reactor = clock  # type: ignore[attr-defined]
    return clock


CLOCK = _virtual_reactor()
