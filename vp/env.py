"""Process environment: same as the repository's own test runner, plus the
Hypothesis library taken (and nothing else) from the tooling venv."""

import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_ALLOWED = ("hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_pytestplugin",
            "_hypothesis_ftz_detector", "_hypothesis_globals")

WANTED = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "LC_ALL": "C.UTF-8",
    "USER": "root",
    "LOGNAME": "root",
    "RUBIN_SIM_DATA_DIR": "/opt/vp/rubin_sim_data",
    "ASTROPY_CONFIG_DIR": "/opt/vp/astropy_config",
    "TZ": "UTC",
    "PGTZ": "UTC",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_DISABLE_JIT": os.environ.get("NUMBA_DISABLE_JIT", "0"),
    "HYPOTHESIS_NO_PLUGINS": "1",
}


class _ToolFinder:
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top in _ALLOWED:
            p = path if path is not None else [TOOL_SITE]
            return importlib.machinery.PathFinder.find_spec(name, p)
        return None


def ensure():
    """Re-exec once with the wanted environment (hash seed must be set early)."""
    if os.environ.get("VP_ENV_DONE") != "1":
        env = dict(os.environ)
        env.update(WANTED)
        env["PATH"] = "/opt/vp/pgbin:" + env.get("PATH", "")
        env["VP_ENV_DONE"] = "1"
        for k in list(env):
            if k.startswith("VSARCHIVE_") or k in ("PRENIGHT_INDEX_URL", "CONDA_PREFIX"):
                del env[k]
        os.execve(sys.executable, [sys.executable, "-B", "-X", "utf8", "-m", "vp.main"] + sys.argv[1:], env)
    sys.dont_write_bytecode = True
    sys.meta_path.append(_ToolFinder())
    # the code under test always comes from the repository's working tree
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
