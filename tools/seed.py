#!/usr/bin/env python3
"""Develop planted bugs: build seeded/<id>/ from a spec file and try the checks on them.

usage: seed.py make SPEC.py [ids...]     spec -> seeded/<id>, confirming demo and tests
       seed.py try [--tier t] ids...     run the property's check against the patch
A spec file holds SEEDS = [dict(id, prop, edits=[(file, old, new), ...], demo, needs, breaks)].
Everything runs on scratch copies of /repo, bind-mounted over /repo in a private
mount namespace, so the real tree is never touched.
"""
import concurrent.futures as cf
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
PY = "/opt/venv/bin/python"
SRC = "src/orquestra/quantum/"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def in_ns(copy, cmd, timeout=900):
    return sh(f"unshare -Urm sh -c 'mount --bind {copy} /repo && cd /repo && {cmd}'", timeout=timeout)


def copy_repo():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp/w")
    sh(f"cp -a /repo/. {d}/")
    return d


def tests(copy, tag):
    out = f"/tmp/w/{tag}.json"
    r = in_ns(copy, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {out}")
    if not os.path.exists(out):
        return False, (r.stdout + r.stderr)[-600:]
    res = json.load(open(out))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(res.get("passed", []))
    bad = [t for t in stable if t not in passed]
    os.unlink(out)
    return not bad, bad[:5]


def touches_original(diff):
    """Whether the patch removes a line which is not the work of our own commits."""
    f = None
    for line in diff.splitlines():
        if line.startswith("--- "):
            f = line[6:]
            blame = sh(f"git -C /repo blame -s b88654e..HEAD -- {f}").stdout.splitlines()
        elif line.startswith("@@"):
            n = int(line.split()[1].split(",")[0][1:])
        elif line.startswith("-"):
            if blame[n - 1].startswith("^"):
                return True
            n += 1
        elif line.startswith(" "):
            n += 1
    return False


def make(s):
    i, why = make_(s)
    if not why.startswith("ok") and (SEEDED / i).exists():
        shutil.rmtree(SEEDED / i)
    return i, why


def make_(s):
    d = copy_repo()
    try:
        for f, old, new in s["edits"]:
            p = pathlib.Path(d) / (f if f.startswith("src/") else SRC + f)
            text = p.read_text()
            if text.count(old) != 1:
                return s["id"], f"edit matches {text.count(old)} times in {f}: {old[:50]!r}"
            p.write_text(text.replace(old, new))
        diff = sh(f"git -C {d} diff").stdout
        if not touches_original(diff):
            return s["id"], "changes no original line"
        out = SEEDED / s["id"]
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text(s["demo"].strip() + "\n")
        (out / "demo.sh").write_text('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (out / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        r = in_ns(d, f"sh {out}/demo.sh")
        if r.returncode == 0:
            return s["id"], "DEMO PASSES WITH PATCH"
        if "AssertionError" not in r.stderr:
            err = (r.stderr or r.stdout).strip().splitlines()[-1:]
        else:
            err = ""
        r = sh(f"sh {out}/demo.sh", cwd="/repo")
        if r.returncode != 0:
            return s["id"], "DEMO FAILS WITHOUT PATCH " + r.stderr[-300:]
        good, why = tests(d, s["id"])
        return s["id"], ("ok" if good else f"TESTS FAIL {why}") + (f"  [demo error: {err}]" if err else "")
    finally:
        shutil.rmtree(d)


def attempt(i, tier="quick", seed=1, extra=""):
    d = copy_repo()
    try:
        r = sh(f"git -C {d} apply {SEEDED}/{i}/patch.diff")
        if r.returncode:
            return "PATCH DOES NOT APPLY"
        prop = json.load(open(SEEDED / i / "meta.json"))["property"]
        r = in_ns(d, f"VERIF_SEED={seed} VERIF_TIER={tier} python3 {VERIF}/check.py {prop} --tier {tier} --no-evidence {extra}")
        lines = [x for x in r.stdout.splitlines() if "VIOLATION" in x]
        head = [x for x in r.stdout.splitlines() if x.startswith(prop)]
        return f"{prop} exit={r.returncode} {'CAUGHT' if r.returncode == 1 and lines else 'MISSED'} {len(lines)} | {head[-1][:150] if head else (r.stdout+r.stderr)[-300:]}"
    finally:
        shutil.rmtree(d)


def main():
    mode, *args = sys.argv[1:]
    if mode == "make":
        seeds = runpy.run_path(args[0])["SEEDS"]
        if args[1:]:
            seeds = [s for s in seeds if s["id"] in args[1:]]
        with cf.ThreadPoolExecutor(7) as ex:
            for i, res in ex.map(make, seeds):
                print(i, res, flush=True)
    elif mode == "try":
        tier, seed = "quick", 1
        while args and args[0].startswith("--"):
            k, v, *args = args
            tier, seed = (v, seed) if k == "--tier" else (tier, v)
        ids = args or sorted(p.name for p in SEEDED.iterdir())
        for i in ids:
            print(i, attempt(i, tier, seed), flush=True)


main()
