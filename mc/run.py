"""python mc/run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VTELEM_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"


def main():
    t_start = time.monotonic()
    par = argparse.ArgumentParser()
    par.add_argument("prop")
    par.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    par.add_argument("--replay")
    par.add_argument("--workers", type=int)
    par.add_argument("--budget", type=float)
    par.add_argument("--only")
    args = par.parse_args()

    if os.environ.get("MC_CHILD") != "1":
        # A private environment: sources of /repo as they are now (no byte
        # code read from or written to /repo), fixed hashing.
        scratch = tempfile.mkdtemp(prefix="mc-")
        env = dict(os.environ)
        env.update(
            MC_CHILD="1",
            MC_SCRATCH=scratch,
            TMPDIR=scratch,
            PYTHONPATH=REPO + os.pathsep + ROOT,
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
            PYTHONHASHSEED="0",
            PYTHONWARNINGS="ignore",
        )
        exe = PYTHON if os.path.exists(PYTHON) else sys.executable
        pid = os.fork()
        if pid == 0:
            argv = list(sys.argv[1:])
            if args.replay:
                argv = [
                    os.path.abspath(a) if a == args.replay else a for a in argv
                ]
            os.chdir(scratch)
            os.execve(
                exe, [exe, os.path.abspath(__file__)] + argv, env
            )
        _, status = os.waitpid(pid, 0)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(os.waitstatus_to_exitcode(status) if status < 65536 else 2)

    sys.path.insert(0, ROOT)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
    sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from mc import report

    mod = importlib.import_module(f"mc.checks.{args.prop.lower()}")
    import vtelem

    assert os.path.abspath(vtelem.__file__).startswith(
        os.path.abspath(REPO) + os.sep
    ), vtelem.__file__
    scenarios = mod.scenarios(args.tier)
    if args.only:
        scenarios = [s for s in scenarios if args.only in s.name]
    code = report.run_check(
        args.prop,
        scenarios,
        mod.ASSUMPTIONS,
        args.tier,
        seed,
        t_start,
        replay=args.replay and os.path.abspath(args.replay),
        workers=args.workers,
        budget_s=args.budget,
    )
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
