"""Process environment: where the code under test is, and the process-wide seams."""
import importlib.machinery
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKG = os.path.join(REPO, "blueqat") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))

FIXED_ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}


def reexec_if_needed(keep_hashseed=False):
    want = dict(FIXED_ENV)
    if keep_hashseed and "PYTHONHASHSEED" in os.environ:
        del want["PYTHONHASHSEED"]
    if any(os.environ.get(k) != v for k, v in want.items()):
        if os.environ.get("DST_REEXEC") == "1":
            raise SystemExit("cannot set up the environment")
        os.environ.update(want)
        os.environ["DST_REEXEC"] = "1"
        try:        # no address-space randomisation, where the system lets us
            import ctypes
            ctypes.CDLL(None).personality(0x0040000)
        except (OSError, AttributeError):
            pass
        os.execv(sys.executable, [sys.executable, "-m", "dst"] + sys.argv[1:])


_done = False
CODES = []          # every code object of the code under test


def note_code(code):
    CODES.append(code)
    for k in code.co_consts:
        if hasattr(k, "co_code"):
            note_code(k)


def setup():
    """Make `import blueqat` load REPO's current source, never stale bytecode."""
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    orig = importlib.machinery.SourceFileLoader.get_code

    def get_code(self, fullname):
        p = self.get_filename(fullname)
        if os.path.realpath(p).startswith(PKG):
            code = self.source_to_code(self.get_data(p), p)
            note_code(code)
            return code
        return orig(self, fullname)

    importlib.machinery.SourceFileLoader.get_code = get_code
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    from . import sched
    sched.install_locks()
    import blueqat
    assert os.path.realpath(blueqat.__file__).startswith(PKG), blueqat.__file__
    import blueqat.experimental  # noqa: F401
    warnings.simplefilter("ignore")


def in_repo(filename):
    return filename.startswith(PKG)
