"""Makes hypothesis (installed in the verification venv) importable from the venv
that runs the code under test, without exposing anything else of that venv."""
import glob
import os
import sys
from importlib.machinery import PathFinder

ALLOWED = {"hypothesis", "_hypothesis_ftz_detector", "_hypothesis_globals", "sortedcontainers"}
SITES = glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")


class _Only:
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top in ALLOWED and path is None:
            return PathFinder.find_spec(name, SITES, target)
        return None


def install():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    sys.meta_path.append(_Only())
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # last resort: the offline wheelhouse
        import zipfile

        scratch = os.environ.get("VT_SCRATCH", "/tmp")
        dst = os.path.join(scratch, "wheels")
        for pat in ("hypothesis-*-cp312-*.whl", "sortedcontainers-*.whl"):
            for whl in glob.glob("/opt/veriftools/wheels/" + pat)[:1]:
                zipfile.ZipFile(whl).extractall(dst)
        sys.path.append(dst)
        import hypothesis  # noqa: F401
