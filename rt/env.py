"""Makes the code of /repo importable from the verification interpreter."""
import os
import sys
import tempfile

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
if "MPLCONFIGDIR" not in os.environ:
    _d = os.path.join(tempfile.gettempdir(), f"mplcfg-{os.getuid()}")
    os.makedirs(_d, exist_ok=True)
    os.environ["MPLCONFIGDIR"] = _d

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/lib/python3.12/site-packages"
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VENV not in sys.path:
    sys.path.append(VENV)
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import jinete  # noqa: E402,F401
