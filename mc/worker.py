"""Run one unit in a fresh interpreter: python -m mc.worker spec.json out.json"""
import json
import os
import sys

from mc import env


def main():
    spec = json.load(open(sys.argv[1]))
    env.prepare(os.environ["MC_MODE"])
    from mc import core

    rep = core.run_unit(spec["property"], spec["unit"], spec["kwargs"], spec["tier"], spec.get("only"))
    with open(sys.argv[2] + ".tmp", "w") as f:
        json.dump(rep, f)
    os.replace(sys.argv[2] + ".tmp", sys.argv[2])


if __name__ == "__main__":
    main()
