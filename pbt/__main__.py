import importlib
import sys

from . import core

MODULES = ["db", "db2", "cache", "cli1", "cli2", "cli3", "lib"]


def props():
    out = {}
    for name in MODULES:
        for cls in importlib.import_module("pbt." + name).PROPS:
            out[cls.id] = cls
    return out


if __name__ == "__main__":
    table = props()
    if sys.argv[1:] == ["--build"]:
        core.make_scratch()
        try:
            builder = core.Builder()
            for cls in table.values():
                cls().setup(builder)
                core.rmtree(core.SCRATCH)
                core.make_scratch()
        finally:
            core.rmtree(core.SCRATCH)
        sys.exit(0)
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        sys.exit("usage: check PROPERTY [quick|thorough] [--replay FILE]; properties: " + " ".join(sorted(table)))
    sys.exit(core.main(table[sys.argv[1]](), sys.argv[2:]))
