"""pyvc: deductive verification of Python/torch code by symbolic execution of the real code objects."""
import os

# the registered commands never set PYVC_REPO; the mutation tools use it to point a run at a scratch copy
REPO = os.environ.get("PYVC_REPO", "/repo").rstrip("/")
