import importlib, json, os, sys, time


def main():
    prop, out = sys.argv[1], sys.argv[2]
    from . import base
    res = base.prove_property(prop)
    with open(out, "w") as f:
        json.dump(res, f, indent=1, default=str)


main()
