#!/usr/bin/env python3
"""Runs the checks against the planted bugs of /verif/seeded: applies each to /repo, runs the check of its
property (or those given after --props), and undoes it.

  tools/seedcheck.py [--props B01,B02] [ID or PREFIX…]
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args, props = sys.argv[1:], None
    if args and args[0] == "--props":
        props, args = args[1].split(","), args[2:]
    rows = []
    for d in sorted(os.listdir(VERIF + "/seeded")):
        p = os.path.join(VERIF, "seeded", d)
        if args and not any(d.startswith(a) for a in args) or not os.path.exists(p + "/patch.diff"):
            continue
        if subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout:
            sys.exit("/repo is not clean")
        meta = json.load(open(p + "/meta.json"))
        subprocess.run(["git", "-C", "/repo", "apply", p + "/patch.diff"], check=True)
        try:
            for prop in props or [meta["property"]]:
                t = time.time()
                r = subprocess.run([VERIF + "/run", prop], cwd=VERIF, capture_output=True, text=True)
                o = (r.stdout + r.stderr).strip().split("\n")
                hit = r.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in o)
                rows.append((d, prop, hit))
                print("%-34s %s %s %.1fs  %s" % (d, prop, "caught" if hit else "MISSED rc=%d" % r.returncode, time.time() - t,
                                               " / ".join(l for l in o if l)[:230]), flush=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    print("%d of %d caught" % (sum(h for _, _, h in rows), len(rows)))


main()
