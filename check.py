#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--facet NAME] [--examples N]

Runs the checks of one property against /repo's working tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: harness error.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("RTV_CHILD") == "1":
        from vlib import harness
        if sys.argv[1:] == ["--selftest"]:
            import hypothesis
            harness.importCode()
            print("hypothesis", hypothesis.__version__, "python", sys.version.split()[0])
            return 0
        return harness.main(sys.argv[1:])
    work = tempfile.mkdtemp(prefix="rtv_")
    try:
        home = os.path.join(work, "home")
        os.makedirs(os.path.join(home, ".config"))
        with open(os.path.join(home, ".config", "ca.dcclab.python.raytracing.json"), "w") as f:
            f.write('{"lastVersionCheck": "2099-01-01T00:00:00.000000", "mode": "silent"}')
        tmp = os.path.join(work, "tmp")
        os.makedirs(tmp)
        repo = os.environ.get("RTV_REPO", "/repo")
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "RAYTRACING", "HYPOTHESIS"))}
        env.update(HOME=home, TMPDIR=tmp, MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(work, "mpl"),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=repo,
                   PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"), OPENBLAS_NUM_THREADS="1",
                   OMP_NUM_THREADS="1", RTV_CHILD="1", RTV_WORK=work, RTV_REPO=repo)
        py = PY if os.path.exists(PY) else sys.executable
        return subprocess.call([py, os.path.join(HERE, "check.py")] + sys.argv[1:], env=env, cwd=work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
