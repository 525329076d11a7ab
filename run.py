"""run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--only sub,sub] [--scale F]"""
import argparse
import importlib.util
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def load():
    sys.path.insert(0, REPO)
    sys.path.insert(1, ROOT)
    sys.path.append(os.path.join(ROOT, "vendor"))
    import numpy  # noqa: F401
    import pyproximal
    got = os.path.realpath(os.path.dirname(pyproximal.__file__))
    want = os.path.realpath(os.path.join(REPO, "pyproximal"))
    if got != want:
        print("HARNESS-ERROR pyproximal imported from %s, not %s" % (got, want), file=sys.stderr)
        sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--nproc", type=int, default=8)
    a = ap.parse_args()
    load()
    path = os.path.join(ROOT, "checks", a.id.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_module", path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["check_module"] = mod
    spec.loader.exec_module(mod)
    if hasattr(mod, "warmup"):
        mod.warmup()
    from vlib import core
    return core.main(a.id, a.tier, a.seed, replay=a.replay,
                     only=set(a.only.split(",")) if a.only else None, scale=a.scale, nproc=a.nproc)


if __name__ == "__main__":
    sys.exit(main())
