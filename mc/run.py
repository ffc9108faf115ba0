#!/usr/bin/env python3
"""Entry point:  python3 /verif/mc/run.py <PROPERTY-ID> [--replay FILE]

Re-executes itself under the interpreter that has syncany installed, with a closed environment
(fixed hash seed, UTC, C locale, scratch HOME and cwd), then runs /verif/mc/checks/<id>.py.
"""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("MC_CHILD") != "1":
        scratch = tempfile.mkdtemp(prefix="mc_")
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": scratch, "TZ": "UTC", "LANG": "C.UTF-8",
               "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "MC_CHILD": "1",
               "PYTHONPATH": os.environ.get("MC_REPO", "/repo") + ":" + HERE, "MC_SCRATCH": scratch,
               "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": os.environ.get("VERIF_TIER", "quick")}
        for k in ("MC_PROCS", "MC_GROUP", "MC_MAXV", "MC_DEBUG", "MC_TIMES"):
            if k in os.environ:
                env[k] = os.environ[k]
        rc = 1
        try:
            pid = os.fork()
            if pid == 0:
                os.chdir(scratch)
                os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
            _, status = os.waitpid(pid, 0)
            rc = os.waitstatus_to_exitcode(status)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc if rc >= 0 else 128 - rc)
    import core
    core.main(sys.argv[1:])


if __name__ == "__main__":
    main()
