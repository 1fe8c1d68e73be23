#!/usr/bin/env python3
"""Make and assess planted bugs: plant.py SPEC.py [names...]

SPEC.py defines BUGS, a list of dicts with id, property, file, edits (pairs of
old and new text), needs, breaks and demo (Python source, exits nonzero if the
property is broken).  Each is applied to a scratch copy of /repo, where tests,
demo and the check of the property are run.  Good ones go to /verif/seeded.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
VERIF = os.environ.get("VD", "/verif")
SEEDED = VERIF + "/seeded"
DEMO_SH = """#!/bin/bash
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout


def assess(bug):
    name = bug["id"]
    tmp = tempfile.mkdtemp(prefix="plant-")
    tree = os.path.join(tmp, "repo")
    res = {"id": name, "property": bug["property"]}
    try:
        sh(["git", "clone", "-q", "/repo", tree], tmp)
        where = os.path.join(tree, "src/sparse_ir", bug["file"])
        src = open(where).read()
        for old, new in bug["edits"]:
            if src.count(old) != 1:
                res["error"] = "%d matches for %r" % (src.count(old), old)
                return res
            src = src.replace(old, new)
        d = os.path.join(tmp, name)
        os.mkdir(d)
        demo = os.path.join(d, "demo.py")
        open(demo, "w").write(bug["demo"].lstrip("\n"))
        path = os.path.join(d, "demo.sh")
        open(path, "w").write(DEMO_SH)
        os.chmod(path, 0o755)
        env = {"PYTHONPATH": tree + "/src"}
        res["clean"], out = sh(["bash", path], tree, env, 300)
        if res["clean"]:
            res["error"] = out[-800:]
            return res
        open(where, "w").write(src)
        _, diff = sh(["git", "diff"], tree)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        res["demo"], out = sh(["bash", path], tree, env, 300)
        res["demo_out"] = out.strip().splitlines()[-1:]
        if not res["demo"]:
            return res
        if not bug.get("skip_tests"):
            rc, out = sh([PY, "-m", "pytest", "test", "-q", "-x", "-p",
                          "no:cacheprovider"], tree, env)
            res["tests"] = out.strip().splitlines()[-1]
            if rc:
                res["error"] = re.findall(r"^FAILED.*", out, re.M)[:3]
                return res
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"],
                       "what_it_breaks": bug["breaks"]}, f, indent=1)
        dest = os.path.join(SEEDED, name)
        if os.path.exists(dest):
            shutil.rmtree(dest)
        shutil.copytree(d, dest)
        res["caught"] = check(tree, bug["property"], tmp)
    finally:
        shutil.rmtree(tmp)
    return res


def check(tree, prop, tmp, seeds="1"):
    """Run copy of check, so that nothing is written to /verif"""
    v = os.path.join(tmp, "verif")
    shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns(
        ".git", "replays", "seeded", "evidence"))
    os.mkdir(os.path.join(v, "evidence"))
    out = []
    for seed in seeds.split():
        rc, text = sh([PY, "-B", "run.py", prop], v,
                      {"PBT_REPO": tree, "VERIF_SEED": seed})
        m = re.search(r"^failing case.*?$|^Traceback.*", text, re.M)
        m2 = re.search(r"^message.*$", text, re.M)
        out.append((rc, (m[0][:160] if m else ""), m2[0][:160] if m2 else
                    text[-300:] if rc else ""))
    return out


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    names = sys.argv[2:]
    bugs = [b for b in bugs if not names or b["id"] in names]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(assess, bugs):
            ok = r.get("caught")
            print("=====", r["id"], r["property"], "CAUGHT" if ok and
                  ok[0][0] == 1 else "MISSED" if ok else "INVALID")
            print("   ", {k: v for k, v in r.items()
                          if k not in ("id", "property")}, flush=True)


if __name__ == "__main__":
    main()
