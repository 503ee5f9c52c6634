#!/opt/venv/bin/python
"""Entry point: run.py <property> [--tier quick|thorough] [--family NAME] [--replay FILE]."""

import argparse
import importlib
import os
import sys
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("HF_HUB_OFFLINE", "1")
if os.environ.get("PYTHONHASHSEED") is None:
    # Own the hash-order nondeterminism: the same run enumerates the same way every time.
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.dont_write_bytecode = True

REPO = os.environ.get("FF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--family")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    import logging

    import torch

    torch.manual_seed(0)
    torch.set_num_threads(1)
    import fastforward

    logging.disable(logging.WARNING)

    origin = os.path.abspath(fastforward.__file__)
    if not origin.startswith(os.path.abspath(REPO) + os.sep):
        print(f"fastforward imported from {origin}, not from {REPO}")
        return 1

    name = next(
        f[:-3]
        for f in sorted(os.listdir(os.path.join(HERE, "checks")))
        if f.startswith(args.prop.lower() + "_") and f.endswith(".py")
    )
    from mc import harness

    mod = importlib.import_module(f"checks.{name}")
    if args.replay:
        return harness.replay(mod, args.replay)
    return harness.execute(mod, tier, seed, args.family, args.jobs)


if __name__ == "__main__":
    sys.exit(main())
