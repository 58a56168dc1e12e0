#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC... [--no-check]   or   plant.py --again ID...

A SPEC file describes a change and its demonstration:

  property: C09
  needs: ...
  breaks: ...
  === edit internal/chain/state.go
  old text
  ---
  new text
  === demo internal/zdemo/demo_test.go [kit]
  Go test (any number of demo sections; [kit] adds kit_test.go beside it)

It is tried in a scratch copy of /repo; kept in /verif/seeded/<spec name> when the
changed tree builds, passes the tests, and the demonstration fails only with it.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

TOOLS = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(TOOLS)
REPO = "/repo"

DEMO = """#!/bin/bash
# Runs the demonstration beside this file as a Go test inside the repository (cwd).
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
if [ -d /opt/vp/gocache ]; then cp -a /opt/vp/gocache "$tmp/cache"; fi
export GOCACHE="$tmp/cache" TMPDIR="$tmp" HOME="$tmp"
cat > "$tmp/overlay.json" <<JSON
{"Replace": {%s}}
JSON
for pkg in %s; do
  go test -overlay "$tmp/overlay.json" -vet=off -c -o "$tmp/demo" "$pkg" || exit 2
  (cd "$tmp" && ./demo -test.timeout 200s -test.v) || exit 1
done
"""


def sh(cmd, cwd, timeout=900, env=None):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    return r.returncode, r.stdout + r.stderr


def parse(path):
    text = open(path).read()
    parts = re.split(r"(?m)^=== ", text)
    meta = dict(re.match(r"(\w+): *(.*)", l).groups() for l in parts[0].strip().splitlines())
    edits, demos = [], []
    for p in parts[1:]:
        head, _, body = p.partition("\n")
        w = head.split()
        if w[0] == "edit":
            old, new = re.split(r"(?m)^---\n", body)
            edits.append((w[1], old, new))
        else:
            demos.append((w[1], body, "kit" in w[2:]))
    return meta, edits, demos


def attempt(out, patch, prop, check, log):
    """Validate the planted bug in directory out."""
    work = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        tree = work + "/repo"
        subprocess.run(["cp", "-a", REPO, tree], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree, check=True)
        rc, o = sh(f"bash {out}/demo.sh", tree)
        if rc != 0:
            return f"demo fails on the unchanged tree:\n{o[-3000:]}"
        rc, o = sh(f"git apply --whitespace=nowarn {patch}", tree)
        if rc != 0:
            return "patch does not apply: " + o
        rc, o = sh(". /opt/vp/env.sh; export GOCACHE=%s/cache; cp -a /opt/vp/gocache $GOCACHE; go build ./... && go test -vet=off -count=1 ./... ; rc=$?; rm -rf $GOCACHE; exit $rc" % work, tree)
        if rc != 0:
            return "build or tests fail:\n" + o[-3000:]
        rc, o = sh(f"bash {out}/demo.sh", tree)
        if rc == 0:
            return "demo passes with the change"
        log.append("demo: " + " | ".join([l for l in o.splitlines() if l.strip()][:4])[:300])
        if check:
            env = dict(os.environ, PBT_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick", PBT_OUT=work)
            r = subprocess.run([sys.executable, VERIF + "/run.py", "check", prop], capture_output=True, text=True, env=env)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            log.append(f"check {prop}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} " + " ".join(
                l for l in r.stderr.splitlines() if l.startswith("--- "))[:400])
            if r.returncode not in (0, 1):
                log.append(r.stderr[-2000:])
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


def plant(spec, check):
    bug = os.path.splitext(os.path.basename(spec))[0]
    meta, edits, demos = parse(spec)
    work = tempfile.mkdtemp(prefix="plantspec-", dir="/tmp")
    try:
        tree = work + "/repo"
        subprocess.run(["git", "clone", "-q", REPO, tree], check=True)
        for f, old, new in edits:
            p = f"{tree}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return bug, f"{f}: old text found {s.count(old)} times", []
            open(p, "w").write(s.replace(old, new))
        r = subprocess.run(["gofmt", "-l"] + [e[0] for e in edits], cwd=tree, capture_output=True, text=True)
        fmt = r.stdout.strip()
        patch = subprocess.run(["git", "diff"], cwd=tree, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(work, ignore_errors=True)
    out = f"{VERIF}/seeded/{bug}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(patch)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]},
              open(out + "/meta.json", "w"), indent=1)
    rep, pkgs = [], []
    for i, (path, body, kit) in enumerate(demos):
        d = os.path.dirname(path)
        name = f"demo{i if i else ''}_test.go"
        open(f"{out}/{name}", "w").write(body)
        rep.append(f'"$PWD/{path}": "$here/{name}"')
        if kit:
            shutil.copy(TOOLS + "/kit_test.go", out + "/kit_test.go")
            rep.append(f'"$PWD/{d}/kit_test.go": "$here/kit_test.go"')
        if "./" + d not in pkgs:
            pkgs.append("./" + d)
    open(out + "/demo.sh", "w").write(DEMO % (", ".join(rep), " ".join(pkgs)))
    os.chmod(out + "/demo.sh", 0o755)
    log = ["not gofmt-ed: " + fmt] if fmt else []
    err = attempt(out, out + "/patch.diff", meta["property"], check, log)
    if err:
        shutil.rmtree(out, ignore_errors=True)
    return bug, err, log


def again(bug, check):
    out = f"{VERIF}/seeded/{bug}"
    log = []
    err = attempt(out, out + "/patch.diff", json.load(open(out + "/meta.json"))["property"], check, log)
    return bug, err, log


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--no-check" not in sys.argv
    fn = again if "--again" in sys.argv else plant
    if fn is again and not args:
        args = sorted(os.listdir(VERIF + "/seeded"))
    with cf.ThreadPoolExecutor(2) as ex:
        for bug, err, log in ex.map(lambda a: fn(a, check), args):
            print(f"== {bug}: {'ok' if not err else 'REJECTED ' + err}")
            for l in log:
                print("   " + l)
            sys.stdout.flush()


main()
