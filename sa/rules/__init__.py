"""Property id -> check function."""
import importlib

CHECKS = {}
TECHNIQUE = {}


def check(pid, technique=None):
    def deco(f):
        CHECKS[pid] = f
        if technique:
            TECHNIQUE[pid] = "static analysis: " + technique
        return f
    return deco


for _m in ("history", "manager", "manager2", "resources", "alloc", "comms", "worker", "messages", "dirs", "persis", "execs", "runners", "specs", "cleanup", "sharing", "gens", "calls", "convert", "view"):
    importlib.import_module(f"{__name__}.{_m}")
