#!/usr/bin/env python3
"""Says for each planted bug how many of the lines it replaces are the original repository's."""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run("git rev-list --max-parents=0 HEAD", shell=True, cwd="/repo", capture_output=True, text=True).stdout.strip()
cache = {}
for d in sorted(glob.glob(V + "/seeded/*/patch.diff")):
    own = orig = 0
    f = None
    for l in open(d):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            if f not in cache:
                r = subprocess.run(["git", "blame", "-l", "-s", "HEAD", "--", f], cwd="/repo", capture_output=True, text=True).stdout
                cache[f] = [x.split()[0].lstrip("^") for x in r.splitlines()]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-") and not l.startswith("---"):
            if base.startswith(cache[f][n - 1]):
                orig += 1
            else:
                own += 1
            n += 1
        elif l.startswith(" "):
            n += 1
    if own or not orig:
        print(os.path.basename(os.path.dirname(d)), "original", orig, "own", own)
