"""python3 -m sa.check <property id>... [--root DIR]   decide properties from the source of the tree."""
import os
import sys

from .report import run_check
from .rules import CHECKS


def main(argv):
    root = "/repo"
    ids = []
    it = iter(argv)
    nowrite = False
    for a in it:
        if a == "--root":
            root = next(it)
        elif a == "--no-write":
            nowrite = True
        else:
            ids.append(a)
    if not ids or ids == ["all"]:
        ids = sorted(CHECKS)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rc = 0
    for i in ids:
        r = run_check(i, CHECKS[i], root, tier, seed, write=not nowrite)
        rc = max(rc, r) if r != 1 and rc != 1 else 1
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
