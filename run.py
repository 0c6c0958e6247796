#!/opt/venv/bin/python
"""run.py <property> [quick|thorough]: decide one property; run.py --replay <file>: show a
recorded violation again; run.py --list."""
import os, sys
for k, v in dict(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                 CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1").items():
    os.environ[k] = v if k != "CUDA_VISIBLE_DEVICES" else ""
PY = "/opt/venv/bin/python"
if os.environ.get("MC_CHILD") != "1" and os.path.exists(PY):
    os.environ["MC_CHILD"] = "1"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc"))
sys.dont_write_bytecode = True
import core


def load(pid=None):
    import importlib
    for mod in ("check_rounds", "check_melds", "check_rules", "check_shanten", "check_loader",
                "check_rows", "check_models", "check_scores", "check_format", "check_train", "check_command", "check_torn", "check_held", "check_symmetry", "check_restore", "check_overlap", "check_scripts"):
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc", mod + ".py")):
            importlib.import_module(mod)


def main():
    a = sys.argv[1:]
    if a[0] == "--setup":  # nothing to build: see that what the checks need is there
        import shutil, subprocess
        if not shutil.which("gcc"):
            sys.exit("gcc is missing")
        import torch, numpy
        return subprocess.run(["gcc", "-fsyntax-only", os.path.join(core.ROOT, "native", "shim.c")]).returncode
    load()
    if a[0] == "--list":
        for k, (f, level, tech) in sorted(core.CHECKS.items()):
            print(k, level, tech)
        return 0
    if a[0] == "--replay":
        import replay
        return replay.main(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return core.main(a[0], tier if tier == "thorough" else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
