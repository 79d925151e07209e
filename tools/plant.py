#!/usr/bin/env python3
"""Development aid, used by no check: try planted changes in scratch copies.

  plant.py new ID PROPERTY 'needs' 'what it breaks' < demo.py      files the diff of /tmp/edit/repo as seeded/ID
  plant.py tests ID...      the stable tests and the demo on a copy with the change
  plant.py check [ID...]    which checks (the property's own, or --prop Pnn) catch it
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"


def copy(i, patch=True):
    d = f"{W}/{i}-{os.getpid()}"
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(W, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    if patch:
        subprocess.run(["git", "-C", d, "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
    return d


def demo(i, d):
    env = dict(os.environ, PYTHONPATH=d, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(["bash", f"{V}/seeded/{i}/demo.sh"], cwd=d, env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def tests(i):
    clean = demo(i, "/repo")
    d = copy(i)
    bad = demo(i, d)
    res = {"id": i, "demo clean": clean[0], "demo planted": bad[0]}
    if clean[0] != 0:
        res["text"] = clean[1]
    script = open("/opt/vp/test.sh").read().replace("/repo", d)
    env = dict(os.environ, PYTHONPATH=d)
    out = f"{W}/{i}.json"
    subprocess.run(["bash", "-c", script, "test.sh", out], env=env, capture_output=True)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(json.load(open(out))["passed"])
    res["missing"] = sorted(stable - passed)[:8]
    shutil.rmtree(d)
    return res


def check(i, props=None):
    d = copy(i)
    p = props or [json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]]
    out = []
    for q in p:
        env = dict(os.environ, SYMX_REPO=d, SYMX_EVIDENCE=f"{W}/{i}.evidence")
        r = subprocess.run(["python3-vt", "check.py", q, "-j", "3"], cwd=V, env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append((q, r.returncode, v[:1] or (r.stdout + r.stderr).splitlines()[-2:]))
    shutil.rmtree(d)
    return i, out


def main():
    cmd, a = sys.argv[1], sys.argv[2:]
    props = None
    if "--prop" in a:
        k = a.index("--prop")
        props = a[k + 1].split(",")
        a = a[:k] + a[k + 2:]
    if cmd == "new":
        i, p, needs, breaks = a
        d = f"{V}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", "/tmp/edit/repo", "diff"], capture_output=True, text=True, check=True).stdout
        assert diff.strip()
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": p, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
        open(f"{d}/demo.py", "w").write(sys.stdin.read())
        open(f"{d}/demo.sh", "w").write(
            '#!/bin/bash\n# run in /repo after the build: 0 when the property holds\n'
            'HERE=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
            'export HOME=$T MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
            'PY=/opt/venv/bin/python\n$PY -W ignore "$HERE/demo.py"\n')
        subprocess.run(["git", "-C", "/tmp/edit/repo", "checkout", "-q", "."], check=True)
        c = demo(i, "/repo")
        b = demo(i, copy(i))
        shutil.rmtree(f"{W}/{i}-{os.getpid()}")
        print(i, "clean", c, "planted", b)
        return
    if cmd == "check" and not a:
        a = sorted(os.listdir(f"{V}/seeded"))
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map((lambda i: tests(i)) if cmd == "tests" else (lambda i: check(i, props)), a):
            print(json.dumps(r) if isinstance(r, dict) else r, flush=True)


if __name__ == "__main__":
    main()
