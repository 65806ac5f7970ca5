#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/bugs/*.py, after confirming each change in a
scratch copy of /repo: it builds, the stable tests pass, the demonstration passes without it and
fails with it.   usage: plant.py [--check [--force]] [id...]
A definition file holds blocks:  bug(id, property, needs, breaks, edits=[(file, old, new)], demo="...")
With --check the property's check also runs against the changed copy."""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = "/repo"
BUGS = {}

def bug(id, prop, needs, breaks, edits, demo, extra=None):
    assert id not in BUGS, id
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, extra=extra or {})

for f in sorted(glob.glob(HERE + "/bugs/*.py")):
    exec(compile(open(f).read(), f, "exec"))

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)

def env():
    out = sh(["bash", "-c", ". /opt/vp/env.sh; env -0"]).stdout
    e = dict(os.environ)
    e.update(x.split("=", 1) for x in out.split("\0") if "=" in x)
    return e

ENV = env()
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def tests(d):
    r = sh("go build ./... && go test -json -vet=off -count=1 ./...", cwd=d, env=ENV)
    ok = set()
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("Action") == "pass" and "Test" in j:
            ok.add(j["Package"] + "/" + j["Test"])
    return STABLE <= ok, r.stderr[-600:]

def main():
    a = sys.argv[1:]
    check, force = "--check" in a, "--force" in a
    ids = [x for x in a if not x.startswith("-")] or list(BUGS)
    for i in ids:
        b = BUGS[i]
        out = f"{VERIF}/seeded/{i}"
        work = f"/tmp/plant-{i}"
        shutil.rmtree(work, True)
        subprocess.run(["cp", "-a", SRC, work], check=True)
        try:
            base = {}
            for f, old, new in b["edits"]:
                s = open(f"{work}/{f}").read()
                if s.count(old) != 1:
                    print(f"{i}: BAD EDIT {f}: {s.count(old)} matches of {old!r}")
                    break
                open(f"{work}/{f}", "w").write(s.replace(old, new))
            else:
                g = sh(f"gofmt -l {' '.join(f for f, _, _ in b['edits'])}", cwd=work, env=ENV)
                if g.stdout.strip():
                    print(f"{i}: note: gofmt {g.stdout.strip()}")
                diff = sh(["git", "diff"], cwd=work).stdout
                ok, err = tests(work)
                if not ok:
                    print(f"{i}: BUILD/TESTS FAIL {err}")
                    continue
                shutil.rmtree(out, True)
                os.makedirs(out)
                open(out + "/patch.diff", "w").write(diff)
                shutil.copy(HERE + "/seedkit/kit.py", out + "/kit.py")
                open(out + "/demo.py", "w").write("from kit import *\n\n" + b["demo"].strip() + "\nprint('ok')\n")
                for n, t in b["extra"].items():
                    open(out + "/" + n, "w").write(t)
                open(out + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository: exit 0 when the behaviour is right\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$(realpath "$0")")/demo.py"\n')
                os.chmod(out + "/demo.sh", 0o755)
                json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
                r0 = sh(["bash", out + "/demo.sh"], cwd=SRC)
                r1 = sh(["bash", out + "/demo.sh"], cwd=work)
                good = r0.returncode == 0 and r1.returncode not in (0, 9)
                print(f"{i}: {b['prop']} demo clean={r0.returncode} changed={r1.returncode} {'' if good else 'DEMO WRONG ' + r0.stdout[-500:] + r0.stderr[-900:] + '|' + r1.stdout[-500:] + r1.stderr[-500:]} {r1.stdout.strip()[-160:]}", flush=True)
                if not good:
                    shutil.rmtree(out, True)
                    continue
                if check:
                    e = dict(os.environ, VERIF_REPO=work, VERIF_EVIDENCE_DIR="/tmp/plant-ev")
                    r = sh([VERIF + "/check", b["prop"]], env=e)
                    print(f"    check {b['prop']}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + b['prop'] in r.stdout else 'MISSED'} {r.stdout.strip()[:300]} {r.stderr[-300:] if r.returncode == 2 else ''}", flush=True)
        finally:
            shutil.rmtree(work, True)

main()
