#!/usr/bin/env python3
"""run.py check PROPERTY [quick|thorough] | setup | replay FILE.json | ir CONFIG"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props


def main():
    a = sys.argv[1:]
    if a[0] == "check":
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        p = props.PROPS[a[1]]
        return vlib.check(a[1], tier, p[tier](), p)
    if a[0] == "setup":
        os.makedirs(vlib.BUILD, exist_ok=True)
        vlib.ensure_lsym()
        return 0
    if a[0] == "ir":
        vlib.ensure_lsym()
        print(vlib.build_ir(props.CONFIGS[a[1]]))
        return 0
    if a[0] == "native":
        print(vlib.build_native(props.CONFIGS[a[1]]))
        return 0
    if a[0] == "replay":
        r = json.load(open(a[1]))
        c = props.CONFIGS[r["cfg"]]
        n = vlib.build_native(c)
        os.environ["HREPLAY_VERBOSE"] = "1"
        return subprocess.call([n, r["entry"], "inline:" + vlib.assignment(r["assignment"]).replace("\n", ",")])
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.Broken as x:
        print("BROKEN:", x)
        sys.exit(2)
